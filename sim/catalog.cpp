#include "catalog.h"
#include <string.h>
#include <sstream>
using namespace B;
using M::F2; using M::P1; using M::P2;
using bn::Fp; using bn::Fp2; using bn::Fp6; using bn::Fp12; using bn::FpDbl; using bn::Ec1; using bn::Ec2; using bn::Compress;
using mie::Vuint; using mie::Vsint;

namespace cat {
std::vector<Op>& ops() { static std::vector<Op> v; return v; }
const Op *find(const std::string& n)
{
	for (size_t i = 0; i < ops().size(); i++) if (n == ops()[i].name) return &ops()[i];
	return 0;
}
int limit(char k)
{
	switch (k | 32) {
	case 'f': return NF; case 'd': return ND; case 'g': return NG; case 'h': return NH; case 'k': return NK; case 'p': return NP;
	case 'q': return NQ; case 'v': return NV; case 's': return NS; case 'z': return NZ; default: return NT;
	}
}
// ---------------------------------------------------------------- values
static const int NM = 40;
static std::map<int, std::vector<P1> > s_p1;
static std::map<int, std::vector<P2> > s_p2;
void prepare()
{
	std::vector<P1>& a = s_p1[M::C.b];
	std::vector<P2>& b = s_p2[M::C.b];
	if (!a.empty()) return;
	for (int i = 0; i < NM; i++) {
		Z e = i < 4 ? Z(i) : i < 6 ? Z(M::C.r - (i - 3)) : M::mdm(Z((unsigned long)(0x9e3779b97f4a7c15ULL * i)) * Z((unsigned long)(0xd1b54a32d192ed03ULL * i)) * Z("123456789012345678901234567890"), M::C.r);
		a.push_back(M::mul(M::g1(), e));
		b.push_back(M::mul(M::g2(), e));
	}
}
static void point(Ec1& e, Rng& r)
{
	const P1& p = s_p1[M::C.b][r.below(8) == 0 ? 0 : r.below(NM)];
	e.clear();
	if (p.inf) {
		if (r.chance(1, 2)) { setRaw(e.p[0], genRawFp(r)); setRaw(e.p[1], genRawFp(r)); }
		return;
	}
	Z z = M::fmul(genRawFp(r), M::C.Rinv);
	if (z == 0 || r.chance(1, 3)) z = 1;
	putJac(e, p, z);
}
static void point(Ec2& e, Rng& r)
{
	const P2& q = s_p2[M::C.b][r.below(8) == 0 ? 0 : r.below(NM)];
	e.clear();
	if (q.inf) {
		if (r.chance(1, 2)) { setRaw(e.p[0].a_, genRawFp(r)); setRaw(e.p[1].b_, genRawFp(r)); }
		return;
	}
	F2 z(M::fmul(genRawFp(r), M::C.Rinv), r.chance(1, 3) ? Z(0) : M::fmul(genRawFp(r), M::C.Rinv));
	if (M::isZero(z) || r.chance(1, 3)) z = F2(1);
	putJac(e, q, z);
}
static Z modulus(); // of ZmZ
void fill(WS& w, u64 seed)
{
	Rng r(seed);
	genRawFps(r, w.f, NF);
	for (int i = 0; i < ND; i++) setRaw(w.d[i], M::md(genWords(r, 8)) * genRawFp(r));
	for (int i = 0; i < NG; i++) genRawFps(r, &w.g[i].a_, 2);
	for (int i = 0; i < NH; i++) genRawFps(r, &w.h[i].a_.a_, 6);
	for (int i = 0; i < NK; i++) genRawFps(r, &w.k[i].a_.a_.a_, 12);
	for (int i = 0; i < NP; i++) point(w.p[i], r);
	for (int i = 0; i < NQ; i++) point(w.q[i], r);
	for (int i = 0; i < NV; i++) w.v[i] = vuint(r.chance(1, 2) ? genWords(r, 4) : abs(genScalar(r)));
	for (int i = 0; i < NS; i++) { Z x = r.chance(1, 2) ? genWords(r, 4) : genScalar(r); w.s[i] = vsint(r.chance(1, 2) ? Z(-x) : x); }
	for (int i = 0; i < NZ; i++) { w.z[i].clear(); }
	for (int i = 0; i < NT; i++) for (int j = 0; j < 3; j++) w.tq[i][j].clear();
}
void load(WS& w, char k, int i, u64 seed)
{
	Rng r(seed);
	switch (k | 32) {
	case 'f': setRaw(w.f[i], genRawFp(r)); break;
	case 'd': setRaw(w.d[i], genDouble(r)); break;
	case 'g': genRawFps(r, &w.g[i].a_, 2); break;
	case 'h': genRawFps(r, &w.h[i].a_.a_, 6); break;
	case 'k': genRawFps(r, &w.k[i].a_.a_.a_, 12); break;
	case 'p': { P1 p; Z z; if (r.chance(1, 2) && genJac(r, p, z)) { w.p[i].clear(); putJac(w.p[i], p, z); } else point(w.p[i], r); break; }
	case 'q': { P2 p; F2 z; if (r.chance(1, 4) && genJac(r, p, z)) { w.q[i].clear(); putJac(w.q[i], p, z); } else point(w.q[i], r); break; }
	case 'v': w.v[i] = vuint(r.chance(1, 2) ? genWords(r, 4) : abs(genScalar(r))); break;
	case 's': { Z x = r.chance(1, 2) ? genWords(r, 4) : genScalar(r); w.s[i] = vsint(r.chance(1, 2) ? Z(-x) : x); break; }
	}
}
void pair(WS& w, char k, int i, int j, u64 seed)
{
	Rng r(seed);
	switch (k | 32) {
	case 'f': genPairs(r, &w.f[i], &w.f[j], 1); break;
	case 'g': genPairs(r, &w.g[i].a_, &w.g[j].a_, 2); break;
	case 'h': genPairs(r, &w.h[i].a_.a_, &w.h[j].a_.a_, 6); break;
	case 'k': genPairs(r, &w.k[i].a_.a_.a_, &w.k[j].a_.a_.a_, 12); break;
	case 'd': { const Z x = genDouble(r); setRaw(w.d[i], x); setRaw(w.d[j], M::mdm(r.chance(1, 2) ? Z(x + genWords(r, 8)) : Z(M::C.PN - x + (long)r.below(5) - 2), M::C.PN)); break; }
	default: load(w, k, i, seed); load(w, k, j, seed + 1);
	}
}
// ---------------------------------------------------------------- results
template<class T> static void bytes(std::string& s, const T& x) { s.append((const char *)&x, sizeof x); }
// raw state of one object: words in hexadecimal, without what is no part of the value
std::string raw(const WS& w, char k, int i)
{
	switch (k | 32) {
	case 'f': return hexOf(&w.f[i], sizeof(Fp));
	case 'd': return hexOf(w.d[i].const_ptr(), 64);
	case 'g': return hexOf(&w.g[i], sizeof(Fp2));
	case 'h': return hexOf(&w.h[i], sizeof(Fp6));
	case 'k': return hexOf(&w.k[i], sizeof(Fp12));
	case 'p': return M::fromLimbs(&w.p[i].p[2][0], 4) == 0 ? "O" : hexOf(w.p[i].p, sizeof w.p[i].p);
	case 'q': return M::isZero(val(w.q[i].p[2])) ? "O" : hexOf(w.q[i].p, sizeof w.q[i].p);
	case 'v': return M::str(val(w.v[i]), 16);
	case 's': return M::str(val(w.s[i]), 16);
	case 'z': return M::str(val(w.z[i].get()), 16);
	default: { std::string s = hexOf(w.tq[i], sizeof w.tq[i]); if (!w.t[i].empty()) s += "|" + hexOf(&w.t[i][0], w.t[i].size() * sizeof(Fp6)); return s; }
	}
}
std::string value(const WS& w, char k, int i)
{
	switch (k | 32) {
	case 'p': { P1 p = affine(w.p[i]); return p.inf ? "O" : M::str(p.x, 16) + "_" + M::str(p.y, 16); }
	case 'q': { P2 p = affine(w.q[i]); return p.inf ? "O" : M::str(p.x.a, 16) + "," + M::str(p.x.b, 16) + "_" + M::str(p.y.a, 16) + "," + M::str(p.y.b, 16); }
	case 'd': return M::str(M::md(B::raw(w.d[i])), 16);
	default: return raw(w, k, i);
	}
}
std::string snapshot(const Op& o, const Ctx& c)
{
	const char k = o.sig[0];
	std::string s = o.name;
	s += '\n';
	s += k;
	s += '\n';
	if (k >= 'a') s += raw(*c.own, k, c.a[0]);
	s += '\n' + strf("%llu ", (unsigned long long)c.word) + escText(c.text);
	return s;
}
static std::string part(const std::string& s, int n)
{
	size_t b = 0;
	while (n--) b = s.find('\n', b) + 1;
	size_t e = s.find('\n', b);
	return s.substr(b, e == std::string::npos ? e : e - b);
}
static void unhex(void *p, const std::string& s)
{
	for (size_t i = 0; i + 1 < s.size(); i += 2) ((unsigned char *)p)[i / 2] = (unsigned char)strtol(s.substr(i, 2).c_str(), 0, 16);
}
bool sameValue(const std::string& a, const std::string& b)
{
	if (a == b) return true;
	if (part(a, 0) != part(b, 0) || part(a, 1) != part(b, 1) || part(a, 3) != part(b, 3)) return false;
	const std::string k = part(a, 1), x = part(a, 2), y = part(b, 2);
	if (k == "p") {
		Fp u[3], v[3];
		memset(u, 0, sizeof u); memset(v, 0, sizeof v);
		if (x != "O") unhex(u, x);
		if (y != "O") unhex(v, y);
		return affine(u) == affine(v);
	}
	if (k == "q") {
		Fp2 u[3], v[3];
		memset(u, 0, sizeof u); memset(v, 0, sizeof v);
		if (x != "O") unhex(u, x);
		if (y != "O") unhex(v, y);
		return affine(u) == affine(v);
	}
	if (k == "d") {
		u64 u[8], v[8];
		unhex(u, x);
		unhex(v, y);
		return M::md(M::fromLimbs(u, 8)) == M::md(M::fromLimbs(v, 8));
	}
	return false;
}
std::string show(const std::string& s)
{
	std::string x = part(s, 2);
	if (x.size() > 260) x = x.substr(0, 256) + "..";
	return part(s, 0) + " -> " + x + " / " + part(s, 3).substr(0, 300);
}
void exec(const Op& o, Ctx& c, std::string& error)
{
	c.text.clear();
	c.word = 0;
	try {
		o.run(c);
	} catch (std::exception& e) {
		error = e.what();
		c.text = std::string("exception: ") + e.what();
	}
}
// ---------------------------------------------------------------- operations
namespace {
struct Reg { Reg(const char *n, const char *s, int w, void (*f)(Ctx&)) { Op o = { n, s, w, f }; ops().push_back(o); } };
}
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OP(name, sig, weight, ...) static Reg CAT(reg_, __COUNTER__)(name, sig, weight, [](Ctx& c) { __VA_ARGS__ });
#define DF (c.own->f[c.a[0]])
#define DD (c.own->d[c.a[0]])
#define DG (c.own->g[c.a[0]])
#define DH (c.own->h[c.a[0]])
#define DK (c.own->k[c.a[0]])
#define DP (c.own->p[c.a[0]])
#define DQ (c.own->q[c.a[0]])
#define DV (c.own->v[c.a[0]])
#define DS (c.own->s[c.a[0]])
#define DZ (c.own->z[c.a[0]])
#define DT (c.own->t[c.a[0]])
#define REF(m, j) (c.a[j] >= 8 ? c.sh->m[c.a[j] - 8] : ((const WS *)c.own)->m[c.a[j]])
#define F(j) REF(f, j)
#define D(j) REF(d, j)
#define G(j) REF(g, j)
#define H(j) REF(h, j)
#define K(j) REF(k, j)
#define P(j) REF(p, j)
#define Q(j) REF(q, j)
#define V(j) REF(v, j)
#define S(j) REF(s, j)
#define ZM(j) REF(z, j)
#define T(j) REF(t, j)
#define IMM (c.imm)
#define SKIP return
typedef std::ostringstream OS;
#define TEXT(x) OS os; if (IMM & 1) os << std::hex; os << x; c.text = os.str();
template<class X> static void parse(X& d, const std::string& s) { std::istringstream is(s); X t; is >> t; if (is) d = t; }

OP("Fp.add", "fff", 0, Fp::add(DF, F(1), F(2));)
OP("Fp.sub", "fff", 0, Fp::sub(DF, F(1), F(2));)
OP("Fp.mul", "fff", 0, Fp::mul(DF, F(1), F(2));)
OP("Fp.square", "ff", 0, Fp::square(DF, F(1));)
OP("Fp.neg", "ff", 0, Fp::neg(DF, F(1));)
OP("Fp.inverse", "ff", 0, if (F(1).isZero()) SKIP; Fp t = F(1); t.inverse(); DF = t;)
OP("Fp.inv", "ff", 0, if (F(1).isZero()) SKIP; Fp::inv(DF, F(1));)
OP("Fp.op", "fff", 0, Fp t = F(1) + F(2); t *= F(1); t -= F(2); t += F(2) * F(1); DF = t - F(1);)
OP("Fp.div", "fff", 0, if (F(2).isZero()) SKIP; Fp t = F(1); t /= F(2); DF = t;)
OP("Fp.div2", "ff", 0, Fp t; Fp::divBy2(t, F(1)); Fp::divBy4(DF, t);)
OP("Fp.root", "ff", 1, Fp t; c.word = Fp::squareRoot(t, F(1)); if (c.word) DF = t;)
OP("Fp.power", "ffv", 1, DF = mie::power(F(1), V(2));)
OP("Fp.power.mpz", "ff", 1, Rng r(IMM); Z e = abs(genScalar(r)); DF = mie::power(F(1), e);)
OP("Fp.power.int", "ff", 0, DF = mie::power(F(1), (int)(IMM & 0xfffff));)
OP("Fp.set.int", "f", 0, DF.set((int)IMM);)
OP("Fp.set.Vuint", "fv", 0, DF.set(V(1));)
OP("Fp.get", "vf", 0, DV = F(1).get();)
OP("Fp.mpz", "ff", 0, Z z; Fp::toMpz(z, F(1)); Fp::fromMpz(DF, z);)
OP("Fp.mont", "ff", 0, Fp t; Fp::fromMont(t, F(1)); Fp::toMont(DF, t);)
OP("Fp.toString", "F", 0, c.text = F(0).toString(IMM & 1 ? 16 : 10);)
OP("Fp.out", "F", 0, TEXT(F(0)))
OP("Fp.text", "ff", 1, parse(DF, F(1).toString(IMM & 1 ? 16 : 10));)
OP("Fp.set.str", "ff", 1, DF.set(F(1).toString(IMM & 1 ? 16 : 10));)
OP("Fp.cmp", "FF", 0, const Fp& a = F(0); const Fp& b = F(1); c.word = (a == b) | (a != b) << 1 | (a < b) << 2 | (a > b) << 3 | a.isZero() << 4 | a.isOdd() << 5;)
OP("FpDbl.mul", "dff", 0, FpDbl::mul(DD, F(1), F(2));)
OP("FpDbl.add", "ddd", 0, FpDbl::add(DD, D(1), D(2));)
OP("FpDbl.sub", "ddd", 0, FpDbl::sub(DD, D(1), D(2));)
OP("FpDbl.mod", "fd", 0, FpDbl::mod(DF, D(1));)
OP("Fp2.add", "ggg", 0, Fp2::add(DG, G(1), G(2));)
OP("Fp2.sub", "ggg", 0, Fp2::sub(DG, G(1), G(2));)
OP("Fp2.mul", "ggg", 0, Fp2::mul(DG, G(1), G(2));)
OP("Fp2.square", "gg", 0, Fp2::square(DG, G(1));)
OP("Fp2.neg", "gg", 0, Fp2::neg(DG, G(1));)
OP("Fp2.mul_xi", "gg", 0, Fp2 t; Fp2::mul_xi(t, G(1)); DG = t;)
OP("Fp2.mul_Fp_0", "ggf", 0, Fp2::mul_Fp_0(DG, G(1), F(2));)
OP("Fp2.div2", "gg", 0, Fp2 t; Fp2::divBy2(t, G(1)); Fp2::divBy4(DG, t);)
OP("Fp2.inverse", "gg", 0, if (G(1).isZero()) SKIP; Fp2 t = G(1); t.inverse(); DG = t;)
OP("Fp2.op", "ggg", 0, Fp2 t = G(1) + G(2); t *= G(1); t -= G(2); t += G(1) * G(2); DG = t - G(1);)
OP("Fp2.power", "ggv", 1, DG = mie::power(G(1), V(2));)
OP("Fp2.C", "ggg", 0, Fp2 t; Fp2 u; Fp2::mulC(t, G(1), G(2)); Fp2::squareC(u, t); Fp2::mul_xiC(t, u); DG = t;)
OP("Fp2Dbl.C", "ggg", 0, bn::Fp2Dbl d; bn::Fp2Dbl e; bn::Fp2Dbl u; if (IMM & 1) bn::Fp2Dbl::mulOpt1C(d, G(1), G(2)); else bn::Fp2Dbl::mulOpt2C(d, G(1), G(2)); bn::Fp2Dbl::squareC(e, G(1)); bn::Fp2Dbl::mul_xiC(u, e); Fp2 t; Fp2 v; bn::Fp2Dbl::modC(t, d); bn::Fp2Dbl::modC(v, u); DG = t - v;)
OP("Fp2.toString", "G", 0, c.text = G(0).toString(IMM & 1 ? 16 : 10);)
OP("Fp2.out", "G", 0, TEXT(G(0)))
OP("Fp2.text", "gg", 1, parse(DG, G(1).toString(IMM & 1 ? 16 : 10));)
OP("Fp2.set", "gg", 1, DG.set(G(1).toString(IMM & 1 ? 16 : 10));)
OP("Fp2.cmp", "GG", 0, c.word = (G(0) == G(1)) | (G(0) != G(1)) << 1 | G(0).isZero() << 2;)
OP("Fp2.parts", "gff", 0, DG = Fp2(F(1), F(2));)
OP("Fp6.add", "hhh", 0, Fp6::add(DH, H(1), H(2));)
OP("Fp6.sub", "hhh", 0, Fp6::sub(DH, H(1), H(2));)
OP("Fp6.mul", "hhh", 0, Fp6::mul(DH, H(1), H(2));)
OP("Fp6.mulC", "hhh", 0, Fp6 t; Fp6::mulC(t, H(1), H(2)); DH = t;)
OP("Fp6Dbl.mulC", "hhh", 0, bn::Fp6Dbl d; bn::Fp6Dbl::mulC(d, H(1), H(2)); bn::Fp6Dbl::mod(DH, d);)
OP("Fp6.line", "hqp", 0, if (Q(1).isZero() || P(2).isZero()) SKIP; Ec1 p = P(2); p.normalize(); Fp2 R[3] = { Q(1).p[0], Q(1).p[1], Q(1).p[2] }; Fp6 l; if (IMM & 1) { Fp6::pointDblLineEvalC(l, R, p.p); Fp6::pointDblLineEval(DH, R, p.p); } else { Fp6::pointDblLineEvalWithoutPC(l, R); Fp6::pointDblLineEvalWithoutP(DH, R); Fp6::mulFp6_24_Fp_01(DH, p.p); } DH += l;)
OP("Fp6.square", "hh", 0, Fp6 t; Fp6::square(t, H(1)); DH = t;)
OP("Fp6.neg", "hh", 0, Fp6::neg(DH, H(1));)
OP("Fp6.inverse", "hh", 1, if (H(1).isZero()) SKIP; Fp6 t = H(1); t.inverse(); DH = t;)
OP("Fp6.op", "hhh", 0, Fp6 t = H(1) + H(2); t *= H(1); t -= H(2); DH = t;)
OP("Fp6.parts", "hggg", 0, DH = Fp6(G(1), G(2), G(3));)
OP("Fp6.out", "H", 0, TEXT(H(0)))
OP("Fp6.text", "hh", 1, OS os; os << H(1); parse(DH, os.str());)
OP("Fp6.cmp", "HH", 0, c.word = (H(0) == H(1)) | (H(0) != H(1)) << 1 | H(0).isZero() << 2;)
OP("Fp12.add", "kkk", 0, Fp12::add(DK, K(1), K(2));)
OP("Fp12.sub", "kkk", 0, Fp12::sub(DK, K(1), K(2));)
OP("Fp12.mul", "kkk", 1, Fp12::mul(DK, K(1), K(2));)
OP("Fp12.mulC", "kkk", 1, Fp12 t; Fp12::mulC(t, K(1), K(2)); DK = t;)
OP("Fp12.square", "kk", 1, Fp12 t = K(1); Fp12::square(t); DK = t;)
OP("Fp12.squareC", "kk", 1, Fp12 t = K(1); Fp12::squareC(t); DK = t;)
OP("Fp12.neg", "kk", 0, Fp12::neg(DK, K(1));)
OP("Fp12.inverse", "kk", 1, if (K(1).isZero()) SKIP; Fp12 t = K(1); t.inverse(); DK = t;)
OP("Fp12.sparse", "kkh", 1, Fp12 t = K(1); bn::Fp12Dbl::mul_Fp2_024(t, H(2)); DK = t;)
OP("Fp12.sparseC", "kkh", 1, Fp12 t = K(1); bn::Fp12Dbl::mul_Fp2_024C(t, H(2)); DK = t;)
OP("Fp12.sparse2", "khh", 1, Fp12 t; bn::Fp12Dbl::mul_Fp2_024_Fp2_024(t, H(1), H(2)); DK = t;)
OP("Fp12.Frobenius", "kk", 0, Fp12 t; Fp12 u; K(1).Frobenius(t); t.Frobenius2(u); u.Frobenius3(t); DK = t;)
OP("Fp12.sqru", "kk", 0, Fp12 t; K(1).sqru(t); DK = t;)
OP("Fp12.power", "kkv", 2, DK = mie::power(K(1), V(2));)
OP("Fp12.final_exp", "kk", 2, if (K(1).isZero()) SKIP; Fp12 t = K(1); t.final_exp(); DK = t;)
OP("Fp12.mapToCyclo", "kk", 1, if (K(1).isZero()) SKIP; Fp12 t = K(1); Fp12 u; t.mapToCyclo(u); DK = u;)
OP("Compress.C", "kk", 1, if (K(1).isZero()) SKIP; Fp12 t = K(1); Fp12 u; t.mapToCyclo(u); Compress z(t, u); Compress::squareC(z); Compress::square_nC(z, (int)(IMM % 20) + 1); z.decompress(); DK = t;)
OP("Compress", "kk", 1, if (K(1).isZero()) SKIP; Fp12 t = K(1); Fp12 u; t.mapToCyclo(u); Compress z(t, u); Compress::square_n(z, (int)(IMM % 20) + 1); z.decompress(); DK = t;)
OP("Fp12.out", "K", 1, TEXT(K(0)))
OP("Fp12.text", "kk", 1, OS os; os << K(1); parse(DK, os.str());)
OP("Fp12.cmp", "KK", 0, c.word = (K(0) == K(1)) | (K(0) != K(1)) << 1 | K(0).isZero() << 2;)
OP("Ec1.add", "ppp", 0, Ec1::add(DP, P(1), P(2));)
OP("Ec1.sub", "ppp", 0, Ec1::sub(DP, P(1), P(2));)
OP("Ec1.dbl", "pp", 0, Ec1::dbl(DP, P(1));)
OP("Ec1.neg", "pp", 0, Ec1::neg(DP, P(1));)
OP("Ec1.op", "ppp", 1, Ec1 t = P(1) + P(2); t += P(1); t -= P(2); DP = t - P(2);)
OP("Ec1.mul.int", "pp", 1, Ec1::mul(DP, P(1), (int)(IMM & 0xfffff) - 0x80000);)
OP("Ec1.mul.size_t", "pp", 1, DP = P(1) * (size_t)IMM;)
OP("Ec1.mul.Vuint", "ppv", 1, Ec1::mul(DP, P(1), V(2));)
OP("Ec1.mul.abs", "pps", 1, DP = P(1) * S(2).get();)
OP("Ec1.mul.mpz", "pp", 1, Rng r(IMM); Z e = genScalar(r); Ec1::mul(DP, P(1), e);)
OP("Ec1.normalize", "pp", 0, Ec1 t = P(1); t.normalize(); DP = t;)
OP("Ec1.set", "pp", 0, if (P(1).isZero()) SKIP; Ec1 t = P(1); t.normalize(); DP.set(t.p[0], t.p[1]);)
OP("Ec1.set.z", "pp", 0, const Ec1& t = P(1); if (t.isZero()) SKIP; DP = Ec1(t.p[0], t.p[1], t.p[2]);)
OP("Ec1.copy", "pp", 0, DP = P(1);)
OP("Ec1.eq", "PP", 0, c.word = (P(0) == P(1)) | (P(0) != P(1)) << 1;)
OP("Ec1.valid", "P", 0, c.word = P(0).isValid() | P(0).isZero() << 1;)
OP("Ec1.curve", "P", 0, c.word = bn::ecop::isOnECJac3(P(0).p) | bn::ecop::isOnECHom2(P(0).p) << 1 | bn::ecop::isOnECHom3(P(0).p) << 2;)
OP("Ec1.out", "P", 0, TEXT(P(0)))
OP("Ec1.text", "pp", 1, OS os; os << P(1); parse(DP, os.str());)
OP("Ec2.add", "qqq", 0, Ec2::add(DQ, Q(1), Q(2));)
OP("Ec2.sub", "qqq", 0, Ec2::sub(DQ, Q(1), Q(2));)
OP("Ec2.dbl", "qq", 0, Ec2::dbl(DQ, Q(1));)
OP("Ec2.neg", "qq", 0, Ec2::neg(DQ, Q(1));)
OP("Ec2.op", "qqq", 1, Ec2 t = Q(1) + Q(2); t += Q(1); t -= Q(2); DQ = t - Q(2);)
OP("Ec2.mul.int", "qq", 1, Ec2::mul(DQ, Q(1), (int)(IMM & 0xfffff) - 0x80000);)
OP("Ec2.mul.size_t", "qq", 1, DQ = Q(1) * (size_t)IMM;)
OP("Ec2.mul.Vuint", "qqv", 2, Ec2::mul(DQ, Q(1), V(2));)
OP("Ec2.mul.abs", "qqs", 2, DQ = Q(1) * S(2).get();)
OP("Ec2.mul.mpz", "qq", 2, Rng r(IMM); Z e = genScalar(r); Ec2::mul(DQ, Q(1), e);)
OP("Ec2.normalize", "qq", 0, Ec2 t = Q(1); t.normalize(); DQ = t;)
OP("Ec2.set", "qq", 0, if (Q(1).isZero()) SKIP; Ec2 t = Q(1); t.normalize(); DQ.set(t.p[0], t.p[1]);)
OP("Ec2.set.z", "qq", 0, const Ec2& t = Q(1); if (t.isZero()) SKIP; DQ = Ec2(t.p[0], t.p[1], t.p[2]);)
OP("Ec2.copy", "qq", 0, DQ = Q(1);)
OP("Ec2.eq", "QQ", 0, c.word = (Q(0) == Q(1)) | (Q(0) != Q(1)) << 1;)
OP("Ec2.valid", "Q", 0, c.word = Q(0).isValid() | Q(0).isZero() << 1;)
OP("Ec2.curve", "Q", 0, c.word = bn::ecop::isOnTwistECJac3(Q(0).p) | bn::ecop::isOnTwistECHom2(Q(0).p) << 1 | bn::ecop::isOnTwistECHom3(Q(0).p) << 2;)
OP("Ec2.out", "Q", 0, TEXT(Q(0)))
OP("Ec2.text", "qq", 1, OS os; os << Q(1); parse(DQ, os.str());)
OP("Ec2.frob", "qq", 0, if (Q(1).isZero()) SKIP; Ec2 t = Q(1); t.normalize(); Fp2 o[3]; Fp2 u[3]; bn::ecop::FrobEndOnTwist_1(o, t.p); o[2] = 1; bn::ecop::FrobEndOnTwist_2(u, o); u[2] = 1; bn::ecop::FrobEndOnTwist_8(o, u); DQ.p[0] = o[0]; DQ.p[1] = o[1]; DQ.p[2] = 1;)
OP("pair", "kqp", 2, bn::opt_atePairing(DK, Q(1), P(2));)
OP("pair.jac", "kqp", 2, bn::opt_atePairingJac<Fp>(DK, Q(1).p, P(2).p);)
OP("pair.affine", "kqp", 2, if (Q(1).isZero() || P(2).isZero()) SKIP; Ec2 q = Q(1); Ec1 p = P(2); q.normalize(); p.normalize(); bn::opt_atePairing<Fp>(DK, q.p, p.p);)
OP("table", "tq", 2, if (Q(1).isZero()) SKIP; bn::components::precomputeG2(DT, c.own->tq[c.a[0]], Q(1).p);)
OP("table.copy", "tt", 0, std::vector<Fp6> t(T(1)); DT.swap(t);)
OP("table.use", "ktp", 2, if (T(1).empty() || P(2).isZero()) SKIP; Ec1 p = P(2); p.normalize(); bn::components::millerLoop(DK, T(1), p.p);)
OP("table.use2", "ktptp", 2, if (T(1).empty() || P(2).isZero() || T(3).empty() || P(4).isZero()) SKIP; Ec1 p = P(2); p.normalize(); Ec1 o = P(4); o.normalize(); bn::components::millerLoop2(DK, T(1), p.p, T(3), o.p);)
OP("Vuint.add", "vvv", 0, if (V(1).size() > 8 || V(2).size() > 8) SKIP; Vuint::add(DV, V(1), V(2));)
OP("Vuint.sub", "vvv", 0, if (V(1) < V(2)) SKIP; Vuint::sub(DV, V(1), V(2));)
OP("Vuint.mul", "vvv", 0, if (V(1).size() + V(2).size() > 9) SKIP; Vuint::mul(DV, V(1), V(2));)
OP("Vuint.div", "vvv", 0, if (V(2).isZero()) SKIP; Vuint q; Vuint r; Vuint::div(&q, r, V(1), V(2)); c.text = r.toString(16); DV = q;)
OP("Vuint.op", "vvv", 0, if (V(2).isZero() || V(1).size() > 7) SKIP; Vuint t = V(1); t <<= (size_t)(IMM % 70); Vuint u = t % V(2); t /= V(2); t >>= (size_t)(IMM % 50); c.text = u.toString(); DV = t;)
OP("Vuint.cmp", "VV", 0, c.word = (V(0) == V(1)) | (V(0) < V(1)) << 1 | (V(0) > V(1)) << 2 | V(0).bitLen() << 4 | V(0).testBit(IMM % 200) << 3;)
OP("Vuint.toString", "V", 0, c.text = V(0).toString(IMM & 1 ? 16 : 10);)
OP("Vuint.out", "V", 0, TEXT(V(0)))
OP("Vuint.set", "vv", 0, std::string s = V(1).toString(IMM & 1 ? 16 : 10); DV.set(s);)
OP("Vuint.text", "vv", 0, parse(DV, V(1).toString());)
OP("Vsint.add", "sss", 0, if (S(1).get().size() > 8 || S(2).get().size() > 8) SKIP; Vsint::add(DS, S(1), S(2));)
OP("Vsint.sub", "sss", 0, if (S(1).get().size() > 8 || S(2).get().size() > 8) SKIP; Vsint::sub(DS, S(1), S(2));)
OP("Vsint.mul", "sss", 0, if (S(1).get().size() + S(2).get().size() > 9) SKIP; Vsint::mul(DS, S(1), S(2));)
OP("Vsint.div", "sss", 0, if (S(2).isZero()) SKIP; DS = S(1) / S(2);)
OP("Vsint.mod", "sss", 0, if (S(2).isZero()) SKIP; DS = S(1) % S(2);)
OP("Vsint.toString", "S", 0, c.text = S(0).toString(IMM & 1 ? 16 : 10);)
OP("Vsint.out", "S", 0, TEXT(S(0)))
OP("Vsint.set", "ss", 0, DS.set(S(1).toString());)
OP("Vsint.text", "ss", 0, parse(DS, S(1).toString(IMM & 1 ? 16 : 10));)
OP("Vsint.cmp", "SS", 0, c.word = (S(0) == S(1)) | (S(0) < S(1)) << 1 | (S(0) > S(1)) << 2 | S(0).isNegative() << 3;)
OP("ZmZ.set", "zv", 0, DZ.set(V(1));)
OP("ZmZ.op", "zzz", 0, Zm t = ZM(1) + ZM(2); t *= ZM(1); t -= ZM(2); DZ = t;)
OP("ZmZ.inv", "zz", 0, if (ZM(1).isZero()) SKIP; Zm::inv(DZ, ZM(1));)
OP("ZmZ.div", "zzz", 0, if (ZM(2).isZero()) SKIP; DZ = ZM(1) / ZM(2);)
OP("ZmZ.power", "zzv", 1, DZ = mie::power(ZM(1), V(2));)
OP("ZmZ.out", "Z", 0, TEXT(ZM(0)))
// broken text must be refused in the same way
OP("bad.Fp", "f", 0, static const char *const t[] = { "", "12x", "0x", "-", "--3", "1 2" }; parse(DF, t[IMM % 6]);)
OP("bad.Ec1", "p", 0, parse(DP, IMM & 1 ? "12_13" : "7");)
OP("bad.Vuint", "v", 0, DV.set(IMM & 1 ? "12z" : "0xg");)
}
