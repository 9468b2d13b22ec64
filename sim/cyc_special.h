// Elements of the cyclotomic subgroup whose coefficient of w is zero (the exceptional case of the decompression),
// found by solving for a root of the degree 6 polynomial c1(N(y)) over Fp2. Coefficients of w^0 .. w^5.
#pragma once
static const char *const cycSpecialDefault[][6][2] = {
{{"11b17dbe3b8a0d9fa6b07ba963c61fc06158f4b023c3aa75b1bb86237f7c61d0","2a65ce84959fc864e4a1796dc0ab692f6ea3315aa2970db7461a64c01a216f5"},{"0","0"},{"31d6f3ddecd2be2c84a5466531172d3a540103317bb3825eee83225131956b3","249949dfcb182785a77afd86982262bcebadb90437d94312324ee512cd6510f8"},{"189571efe772150cc29c1a3365dda70a427cacc4b18333589e9186b11ad35023","1f95817759cd925dc505bf35255e47bfff9b3c58cdee84082f7393a79fd00497"},{"1a0ce9b06591fd20f88f8d8595a9441da18d8d598113a24058d3673dc230978","1638e4dcd384f42ecc6928933708beec55c60eba7ebb28e47fcf91e137ecc891"},{"241c45e1679858eee94f4615d37e436ff2de1778055ba5970fbfc2747bf74aa0","ed8c07ca0a7797a8a6fc0e8342e39fc1835700a796b560046a4d6f7933e6593"}},
{{"3dde12e11f02f9fcaa39d076158b09259185e4d0b3bbff75e93e3cfa59dd16e","8a62978132521bb9408489d6a46b953e63c4acfc260233f25cadcaa94939bae"},{"0","0"},{"8dacaf776dca4f9f9b6520566c25e2771c11b45667c419a8183fea73f0e18e9","bcdc0623f48a38a8b3fa847f1fc79813e3fa0fd751a4c29ca1c05de7105704c"},{"73ef399be3ac1228e34b359b36adc37404c6b468773547a972b74126a3430a0","d2ea63e327f7034eebc171940583f99f178ffbb2ba0e8ef1f5a5ba953b49ead"},{"1cf3a82919ed46d1ace6e1fc5dfddc9e05d06208a1ec185bca94069eed2e5c51","b3aebba1e89d8224645c8e95b12038c7ed4f470bb57cde264d27ec7e25d1ead"},{"1b1557b63770840ae472b16c3c4165c8bce224ff13d912ef9cdf02358dceb8f4","1e23466aba8508060f82d7b4caed077ee32157df6d8ce868d8c81f4ef6d58dde"}},
{{"1c61086a6778ba73264726887d7b9c3042b8f2f3142642fba7007db38e7739bf","191e5aece96207b43cb28152088d61a2113e793addb1a0f71186c8a170130289"},{"0","0"},{"46b8d470fddac97c139afbe570fe9c48ddc91dac7f7c0211c8b2ea8231bb671","1adce86e30c30821590daef60025e448360ace81afc1dd9c8fab7d23f120f295"},{"178acd46e5d0a01b365c0081afca3ffecbb53a5923cd1adfee30111aeae4c441","43627253a36e131189c4b576c4cde97979fff908bdfa12c433cb84fc0b0b15e"},{"1cf185e7b7cf285a4dab59b7e756dcc4ba6af74e1ce9c12313a38b9ec202d64e","cbd4272800e600017eb5c0dbe977b50123d213cf8b54cbf92c7072eb39df2b3"},{"16a379ce8c7cfbd60b0d60e8c2954149ca26621bf46e24f9faa8e0db5985fa80","1c9970eee5b8b292252e3021eb081c86ed181effc665a650ab8121ba49bd0b3f"}},
};
static const char *const cycSpecialSnark[][6][2] = {
{{"2379bb46c12f5acba64e67a499a8d12f334af827afb59c39dd407d5f25286980","8b8a64e9e5d46b435888c7b9cd552ea2249f303bf76b93d6d3975f47adb4f02"},{"0","0"},{"bf0276b86ac25b4e6a32aacf68a6b4110e374cfa3de8198362bb581730f9a08","12d1ad1878381a94ad1091cd6ad207cb86cb49f7b096ef109ec2bb57b893d4e7"},{"9f393b0035208053742af3ac342b4393f40b24463d2bbfaad03584d7114d51f","26e9d4e4e3a2451aa95d913b386fe8d59961acfa005354a2c6a164308d503d84"},{"1d3a0d8c7cf73d4aa589626f6e87f8fa91284f1325682044e153dd160861d0c6","1bf708ab1aae869ad7b02e3e6642db11ed46f3a753d562af22b68898b7f89ed1"},{"eeadf2ab8aec6183906d880b09b47eb6c84d83833c420ada82b97e41a1b0add","89b92154c2fdebf3c0199c2dedbdbbbfd31745e5410a6c3424cf0d37cd1f97a"}},
{{"f28bf452ed905432133238cd3dc52627a1bbfe7795b7d869e22c64f0c1acc2d","83669da779bbf5d0ea4a5739e6e59b957f3006439311ed76f74691659e03d6d"},{"0","0"},{"1baa7b6fc5d8a513f7b3a9dfb8104f5eb8257b361a83405f4fc5e2a4266d8a85","9bd9b924e8565a59a20ffd3a03ba483ae28acecb49e274f8adfd7ceca147280"},{"1235266a85b8d70bd54350cbab6198fbed18c5ed95eb5704a69f22d5fe93d487","ac469233a3f7da85fa40f55c3187c11b0d938c5329f787d5e4d0b72b8203280"},{"5695d9e954e96f8159df094b3234b53a1d4b5a32a311ec2bc8c3942a3edab5","26d43151ad658a9eac77bf9bbfc7be212b668ada3b7492099916009df5f4be89"},{"48da88aff1824caf830558d10f9d64be08dccf68671798fa2407036399587d","2c19ec99c8d5b3153e83d336047cb02072e6243503961e7eecb4fb506dd1704b"}},
{{"2fd0193dd5c6f3af2155a99c76fb348ddfcff1ff799fed758eb9a6c9a1d77924","25c73b5eae6d725e365a3224850af93b122e3815f66102fa6f2fe288b1d21bb6"},{"0","0"},{"d758c7abf0e156681335550644f6dd9d0a471096bdaf5372e9b7b769c8fd41b","c5422b40b15669399e7ace424d7269b33710a4cea40e83f84074d31b8991809"},{"65a623dc82bc52bee780baba21e4c1d8a0b0f143d2cfd3330effd8b0cf838d9","23eb2059e2875e0a3d112f4b50e34ff16b380f36ddd3d970c902013b15eec6b9"},{"1d93d79a43a63aff5c8e8a998580c1562742338c18f3572eaccafd8e7fb7d3cc","48cf0ae6a27cc231b226614760126a497853ce598b9f29975d44375b6516ad4"},{"2b0d43a4023dc21de0fd6335b94d7ecc721b618861586f8bcdb9c98b94ccbded","15da94a06c6f1e3dbfb03377310b2e2e5a45fe84555d1be63bf11644267c2b11"}},
};
