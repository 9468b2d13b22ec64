// A broad sample of operations of the initialized library against the model.
#pragma once
#include "bridge.h"

namespace B {
using M::P1; using M::P2; using M::F12;
inline void selfTest(int curve, u64 seed, void (*bad)(const std::string& cls, const std::string& what))
{
	Rng r(seed);
	M::init(SNARK, curve);
	const P1 g1 = M::g1();
	const P2 g2 = M::g2();
	Z a = Z((unsigned long)r.range(1, 4000)), b = Z((unsigned long)r.range(1, 4000));
	bn::Ec1 p, P;
	bn::Ec2 q, Q;
	putJac(p, g1, Z(1));
	putJac(q, g2, M::F2(1));
	if (!p.isValid() || !q.isValid()) bad("wrong-value", "a base point is not valid");
	Z ar = a + M::C.r * (unsigned long)r.below(3), br = b + M::C.r * (unsigned long)r.below(3);
	bn::Ec1::mul(P, p, vuint(ar));
	bn::Ec2::mul(Q, q, vuint(br));
	if (!(affine(P) == M::mul(g1, a))) bad("wrong-value", "multiple of a point of G1");
	if (!(affine(Q) == M::mul(g2, b))) bad("wrong-value", "multiple of a point of G2");
	bn::Fp12 e;
	bn::opt_atePairing(e, Q, P);
	if (!(val(e) == M::pow(M::baseGT(), Z(a * b)))) bad("wrong-value", "pairing");
	if (mie::Vuint(vuint(M::C.r)) != bn::Param::r || val(bn::Param::p) != M::C.p) bad("wrong-value", "parameters");
	// precomputed table, squarings and the power by the curve parameter
	std::vector<bn::Fp6> tab;
	bn::Fp2 T[3];
	P.normalize();
	bn::components::precomputeG2(tab, T, Q.p);
	bn::Fp12 f;
	bn::components::millerLoop(f, tab, P.p);
	f.final_exp();
	if (f != e) bad("wrong-value", "pairing by a precomputed table");
	bn::Fp x, y;
	Z xv = M::fmul(genRawFp(r), M::C.Rinv), yv = M::fmul(genRawFp(r), M::C.Rinv);
	put(x, xv);
	put(y, yv);
	if (val(x * y) != M::fmul(xv, yv) || val(x + y) != M::fadd(xv, yv) || val(x - y) != M::fsub(xv, yv)) bad("wrong-value", "arithmetic of Fp");
	if (yv != 0 && val(x / y) != M::fmul(xv, M::finv(yv))) bad("wrong-value", "division of Fp");
	bn::Fp h;
	bn::Fp::divBy2(h, x);
	if (val(h) != M::fmul(xv, M::finv(Z(2)))) bad("wrong-value", "half of Fp");
	bn::Fp::divBy4(h, x);
	if (val(h) != M::fmul(xv, M::finv(Z(4)))) bad("wrong-value", "quarter of Fp");
	if (val(mie::power(x, vuint(ar))) != M::fpow(xv, ar)) bad("wrong-value", "power of Fp");
	Z u = genWords(r, 8), v = genWords(r, 4) + 1;
	mie::Vuint U = vuint(u), V = vuint(v);
	if (val(U / V) != u / v || val(U % V) != u % v) bad("wrong-value", "division of Vuint");
	if (U.toString() != u.get_str() || val(mie::Vuint(u.get_str())) != u) bad("wrong-value", "text of Vuint");
	bn::Fp sq;
	if (bn::Fp::squareRoot(sq, x * x) == false || (val(sq) != xv && val(sq) != M::fneg(xv))) bad("wrong-value", "square root");
	evBytes("e", &e, sizeof e);
	evBytes("t", T, sizeof T);
}
}
