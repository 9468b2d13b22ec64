// C09: histories of field tower operations by interleaved clients on a register machine with guards,
// against the GMP model. Faults: re-initialization, garbage in dead stack and fresh heap memory.
#include "bridge.h"
#include <string.h>
#include <functional>
using namespace B;
using M::F2; using M::F6; using M::F12;
using bn::Fp; using bn::Fp2; using bn::Fp6; using bn::Fp12; using bn::FpDbl; using bn::Fp2Dbl; using bn::Fp6Dbl; using bn::Fp12Dbl;

namespace {
const int NF = 6, NG = 5, NH = 3, NK = 3, NN = 3, ND = 4, NE = 4, NU = 2, NW = 1;
struct V { std::vector<Z> z; }; // raw words of a double width object

struct Mach {
	Arena ar;
	Fp *f[NF], *n[NN];
	Fp2 *g[NG];
	Fp6 *h[NH];
	Fp12 *k[NK];
	FpDbl *d[ND];
	Fp2Dbl *e[NE];
	Fp6Dbl *u[NU];
	Fp12Dbl *w[NW];
	Z mf[NF], mn[NN], md[ND];
	F2 mg[NG];
	F6 mh[NH];
	F12 mk[NK];
	V me[NE], mu[NU], mw[NW];
	const Step *st;
	std::string what;
};
Mach *m;
int reg(char kind, size_t pos)
{
	int lim = 1;
	switch (kind) { case 'f': lim = NF; break; case 'g': lim = NG; break; case 'h': lim = NH; break; case 'k': lim = NK; break; case 'n': lim = NN; break; case 'd': lim = ND; break; case 'e': lim = NE; break; case 'u': lim = NU; break; case 'w': lim = NW; break; }
	return (int)(m->st->u(pos + 1) % lim);
}
int A(size_t pos) { return (int)m->st->u(pos + 1); } // register number (already in range)
#define Lf(i) (*m->f[A(i)])
#define Lg(i) (*m->g[A(i)])
#define Lh(i) (*m->h[A(i)])
#define Lk(i) (*m->k[A(i)])
#define Ln(i) (*m->n[A(i)])
#define Ld(i) (*m->d[A(i)])
#define Le(i) (*m->e[A(i)])
#define Lu(i) (*m->u[A(i)])
#define Lw(i) (*m->w[A(i)])
#define Mf(i) (m->mf[A(i)])
#define Mg(i) (m->mg[A(i)])
#define Mh(i) (m->mh[A(i)])
#define Mk(i) (m->mk[A(i)])
#define Mn(i) (m->mn[A(i)])
#define Md(i) (m->md[A(i)])
#define Me(i) (m->me[A(i)].z)
#define Mu(i) (m->mu[A(i)].z)
#define Mw(i) (m->mw[A(i)].z)

void bad(const std::string& s) { violate("wrong-value", m->what + ": " + s); }
void expect(bool got, bool want) { if (got != want) bad(strf("returned %d instead of %d", got, want)); }
void expectZ(const Z& got, const Z& want) { if (got != want) bad("gave " + zhex(got) + " instead of " + zhex(want)); }
void expectS(const std::string& got, const std::string& want) { if (got != want) bad("gave text " + got + " instead of " + want); }

Z modm(const Z& x, const Z& n) { return M::mdm(x, n); }
const Z& P() { return M::C.p; }
const Z& PN() { return M::C.PN; }
std::vector<Z> vec(const Fp2Dbl& x) { std::vector<Z> r; r.push_back(raw(x.a_)); r.push_back(raw(x.b_)); return r; }
std::vector<Z> vec(const Fp6Dbl& x) { std::vector<Z> r = vec(x.a_), t = vec(x.b_); r.insert(r.end(), t.begin(), t.end()); t = vec(x.c_); r.insert(r.end(), t.begin(), t.end()); return r; }
std::vector<Z> vec(const Fp12Dbl& x) { std::vector<Z> r = vec(x.a_), t = vec(x.b_); r.insert(r.end(), t.begin(), t.end()); return r; }
bool small(const std::vector<Z>& v) { for (size_t i = 0; i < v.size(); i++) if (v[i] >= PN()) return false; return true; }
// value of a double width word: raw / R^2
Z dval(const Z& x) { return M::fmul(x, M::C.Rinv2); }
Z drep(const Z& v) { return M::fmul(M::fmul(v, M::C.R), M::C.R); }
F2 dv2(const std::vector<Z>& v, int o = 0) { return F2(dval(v[o]), dval(v[o + 1])); }
F6 dv6(const std::vector<Z>& v, int o = 0) { F6 r; for (int i = 0; i < 3; i++) r.c[i] = dv2(v, o + 2 * i); return r; }
std::vector<Z> rep2(const F2& x) { std::vector<Z> r; r.push_back(drep(x.a)); r.push_back(drep(x.b)); return r; }
std::vector<Z> rep6(const F6& x) { std::vector<Z> r; for (int i = 0; i < 3; i++) { r.push_back(drep(x.c[i].a)); r.push_back(drep(x.c[i].b)); } return r; }
typedef std::vector<Z> (*BinV)(const std::vector<Z>&, const std::vector<Z>&);
std::vector<Z> addPN(const std::vector<Z>& x, const std::vector<Z>& y) { std::vector<Z> r; for (size_t i = 0; i < x.size(); i++) r.push_back(modm(x[i] + y[i], PN())); return r; }
std::vector<Z> subPN(const std::vector<Z>& x, const std::vector<Z>& y) { std::vector<Z> r; for (size_t i = 0; i < x.size(); i++) r.push_back(modm(x[i] - y[i], PN())); return r; }
std::vector<Z> negPN(const std::vector<Z>& x) { std::vector<Z> r; for (size_t i = 0; i < x.size(); i++) r.push_back(modm(-x[i], PN())); return r; }
std::vector<Z> addV(const std::vector<Z>& x, const std::vector<Z>& y) { std::vector<Z> r; for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] + y[i]); return r; }
std::vector<Z> subV(const std::vector<Z>& x, const std::vector<Z>& y) { std::vector<Z> r; for (size_t i = 0; i < x.size(); i++) r.push_back(x[i] - y[i]); return r; }
bool inW(const std::vector<Z>& v) { for (size_t i = 0; i < v.size(); i++) if (v[i] < 0 || v[i] >= M::C.W) return false; return true; }

F6 mulF6F2(const F6& x, const F2& y) { F6 r; for (int i = 0; i < 3; i++) r.c[i] = x.c[i] * y; return r; }
F6 shiftV(const F6& x) { F6 r; r.c[0] = M::C.xi * x.c[2]; r.c[1] = x.c[0]; r.c[2] = x.c[1]; return r; }
F12 sparse(const F6& l) { // (a, b, c) = (l00, l11, l02)
	F12 r = M::zero12();
	r.c[0] = l.c[0]; r.c[3] = l.c[1]; r.c[4] = l.c[2];
	return r;
}
Z expo(u64 imm)
{
	// exponent of a power from the immediate
	Rng r(imm);
	switch (r.below(6)) {
	case 0: return Z((unsigned long)r.below(5));
	case 1: return P() - 1 - (unsigned long)r.below(2);
	case 2: return Z(1) << (unsigned)r.below(130);
	case 3: return genWords(r, 3);
	case 4: return Z((unsigned long)(r.next() >> r.below(64)));
	default: return genWords(r, 4);
	}
}
Z expoSmall(u64 imm)
{
	Rng r(imm);
	switch (r.below(4)) {
	case 0: return Z((unsigned long)r.below(5));
	case 1: return (Z(1) << 64) + (unsigned long)r.below(9);
	default: return Z((unsigned long)(r.next() >> r.below(60)));
	}
}

struct Op {
	const char *name, *sig; // sig: kinds of the registers, first = destination (upper case: no destination, only read)
	int flags;              // 1: destination must differ from the operands, 2: slow
	std::function<bool()> pre;
	std::function<void()> run; // performs the library operation and updates the model
};
std::vector<Op> ops;
std::map<std::string, int> opIdx;
struct Reg { Reg(const char *n, const char *s, int fl, std::function<bool()> p, std::function<void()> r) { Op o; o.name = n; o.sig = s; o.flags = fl; o.pre = p; o.run = r; opIdx[n] = (int)ops.size(); ops.push_back(o); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OPX(name, sig, fl, cond, ...) static Reg CAT(reg_, __COUNTER__)(name, sig, fl, [] { return (bool)(cond); }, [] { __VA_ARGS__ });
#define OP(name, sig, ...) OPX(name, sig, 0, true, __VA_ARGS__)
#define IMM (m->st->u(6))
#define NZ(x) (!M::isZero(x))

// ---- Fp
OP("Fp.add", "fff", Z t = M::fadd(Mf(1), Mf(2)); Fp::add(Lf(0), Lf(1), Lf(2)); Mf(0) = t;)
OP("Fp.sub", "fff", Z t = M::fsub(Mf(1), Mf(2)); Fp::sub(Lf(0), Lf(1), Lf(2)); Mf(0) = t;)
OP("Fp.mul", "fff", Z t = M::fmul(Mf(1), Mf(2)); Fp::mul(Lf(0), Lf(1), Lf(2)); Mf(0) = t;)
OP("Fp.square", "ff", Z t = M::fmul(Mf(1), Mf(1)); Fp::square(Lf(0), Lf(1)); Mf(0) = t;)
OP("Fp.neg", "ff", Z t = M::fneg(Mf(1)); Fp::neg(Lf(0), Lf(1)); Mf(0) = t;)
OPX("Fp.inv", "ff", 0, NZ(Mf(1)), Z t = M::finv(Mf(1)); Fp::inv(Lf(0), Lf(1)); Mf(0) = t;)
OPX("Fp.inverse", "f", 0, NZ(Mf(0)), Z t = M::finv(Mf(0)); Lf(0).inverse(); Mf(0) = t;)
OP("Fp.op+", "fff", Z t = M::fadd(Mf(1), Mf(2)); Lf(0) = Lf(1) + Lf(2); Mf(0) = t;)
OP("Fp.op-", "fff", Z t = M::fsub(Mf(1), Mf(2)); Lf(0) = Lf(1) - Lf(2); Mf(0) = t;)
OP("Fp.op*", "fff", Z t = M::fmul(Mf(1), Mf(2)); Lf(0) = Lf(1) * Lf(2); Mf(0) = t;)
OPX("Fp.op/", "fff", 0, NZ(Mf(2)), Z t = M::fmul(Mf(1), M::finv(Mf(2))); Lf(0) = Lf(1) / Lf(2); Mf(0) = t;)
OPX("Fp.op/=", "ff", 0, NZ(Mf(1)), Z t = M::fmul(Mf(0), M::finv(Mf(1))); Lf(0) /= Lf(1); Mf(0) = t;)
OP("Fp.op+=", "ff", Z t = M::fadd(Mf(0), Mf(1)); Lf(0) += Lf(1); Mf(0) = t;)
OP("Fp.op-=", "ff", Z t = M::fsub(Mf(0), Mf(1)); Lf(0) -= Lf(1); Mf(0) = t;)
OP("Fp.op*=", "ff", Z t = M::fmul(Mf(0), Mf(1)); Lf(0) *= Lf(1); Mf(0) = t;)
OP("Fp.op*=int", "f", int i = (int)IMM; Z t = M::fmul(Mf(0), Z(i)); Lf(0) *= i; Mf(0) = t;)
OP("Fp.unary-", "ff", Z t = M::fneg(Mf(1)); Lf(0) = -Lf(1); Mf(0) = t;)
OP("Fp.divBy2", "ff", Z t = M::fmul(Mf(1), M::finv(Z(2))); Fp::divBy2(Lf(0), Lf(1)); Mf(0) = t;)
OP("Fp.divBy4", "ff", Z t = M::fmul(Mf(1), M::finv(Z(4))); Fp::divBy4(Lf(0), Lf(1)); Mf(0) = t;)
OPX("Fp._2z_add_3x", "ff", 1, true, Z t = M::md(2 * Mf(0) + 3 * Mf(1)); Fp::_2z_add_3x(Lf(0), Lf(1)); Mf(0) = t;)
OPX("Fp._3z_add_2x", "ff", 1, true, Z t = M::md(2 * Mf(0) + 3 * Mf(1)); Fp::_3z_add_2xC(Lf(0), Lf(1)); Mf(0) = t;)
OP("Fp.squareRoot", "ff", Z s = M::fpow(Mf(1), (P() + 1) / 4); bool ok = M::fmul(s, s) == Mf(1); bool g = Fp::squareRoot(Lf(0), Lf(1)); expect(g, ok); if (ok) Mf(0) = s;)
OP("Fp.power", "ff", Z e = expo(IMM); Z t = M::fpow(Mf(1), e); Lf(0) = mie::power(Lf(1), vuint(e)); Mf(0) = t;)
OP("Fp.power.mpz", "ff", Z e = expo(IMM); Z t = M::fpow(Mf(1), e); Lf(0) = mie::power(Lf(1), e); Mf(0) = t;)
OP("Fp.power.int", "ff", int e = (int)(IMM & 0x7fffffff); Z t = M::fpow(Mf(1), Z(e)); Lf(0) = mie::power(Lf(1), e); Mf(0) = t;)
OP("Fp.power.size_t", "ff", size_t e = IMM; Z t = M::fpow(Mf(1), Z((unsigned long)e)); Lf(0) = mie::power(Lf(1), e); Mf(0) = t;)
OP("Fp.set.int", "f", int i = (int)IMM; Lf(0).set(i); Mf(0) = M::md(Z(i));)
OP("Fp.set.Vuint", "f", Rng r(IMM); Z z = genWords(r, 9); mie::Vuint v = vuint(z); Lf(0).set(v); Mf(0) = M::md(z); expectZ(val(v), z);)
OP("Fp.set.str", "f", Rng r(IMM); Z z = genWords(r, 5); std::string s = M::str(z, r.chance(1, 2) ? 16 : 10); Lf(0).set(s); Mf(0) = M::md(z);)
OP("Fp.ctor.Unit", "ff", Lf(0) = Fp(&Lf(1)[0]); Mf(0) = Mf(1);)
OP("Fp.copy", "ff", Lf(0) = Lf(1); Mf(0) = Mf(1);)
OP("Fp.clear", "f", Lf(0).clear(); Mf(0) = 0;)
OP("Fp.fromMont", "ff", Z t = M::fmul(Mf(1), M::C.Rinv); Fp::fromMont(Lf(0), Lf(1)); Mf(0) = t;)
OP("Fp.toMont", "ff", Z t = M::fmul(Mf(1), M::C.R); Fp::toMont(Lf(0), Lf(1)); Mf(0) = t;)
OP("Fp.mpz", "ff", Z t; Fp::toMpz(t, Lf(1)); expectZ(t, M::fmul(Mf(1), M::C.R)); Fp::fromMpz(Lf(0), t); Mf(0) = Mf(1);)
OP("Fp.setDirect", "ff", Fp::setDirect(Lf(0), vuint(raw(Lf(1)))); Mf(0) = Mf(1);)
OP("Fp.get", "F", expectZ(val(Lf(0).get()), Mf(0));)
OP("Fp.toString", "F", expectS(Lf(0).toString(), M::str(Mf(0))); expectS(Lf(0).toString(16), M::str(Mf(0), 16));)
OP("Fp.low", "F", expect(Lf(0).isOdd(), mpz_tstbit(Mf(0).get_mpz_t(), 0)); expectZ(Z((unsigned long)Lf(0).getLow()), Mf(0) & Z(0xffffffffffffffffUL));)
OP("Fp.cmp", "FF", expect(Lf(0) == Lf(1), Mf(0) == Mf(1)); expect(Lf(0) != Lf(1), Mf(0) != Mf(1)); expect(Lf(0).isZero(), Mf(0) == 0); Z a = M::fmul(Mf(0), M::C.R); Z b = M::fmul(Mf(1), M::C.R); expect(Lf(0) < Lf(1), a < b); expect(Lf(0) >= Lf(1), a >= b); expect(Lf(0) > Lf(1), a > b); expect(Lf(0) <= Lf(1), a <= b);)
OP("Fp.cmp.int", "F", int i = (int)IMM; expect(Lf(0) == i, Mf(0) == M::md(Z(i)));)

// ---- Fp2
OP("Fp2.add", "ggg", F2 t = Mg(1) + Mg(2); Fp2::add(Lg(0), Lg(1), Lg(2)); Mg(0) = t;)
OP("Fp2.sub", "ggg", F2 t = Mg(1) - Mg(2); Fp2::sub(Lg(0), Lg(1), Lg(2)); Mg(0) = t;)
OP("Fp2.mul", "ggg", F2 t = Mg(1) * Mg(2); Fp2::mul(Lg(0), Lg(1), Lg(2)); Mg(0) = t;)
OP("Fp2.addC", "ggg", F2 t = Mg(1) + Mg(2); Fp2::addC(Lg(0), Lg(1), Lg(2)); Mg(0) = t;)
OP("Fp2.subC", "ggg", F2 t = Mg(1) - Mg(2); Fp2::subC(Lg(0), Lg(1), Lg(2)); Mg(0) = t;)
OP("Fp2.mulC", "ggg", F2 t = Mg(1) * Mg(2); if (&Lg(0) == &Lg(1) || &Lg(0) == &Lg(2)) { Fp2 z; Fp2::mulC(z, Lg(1), Lg(2)); Lg(0) = z; } else Fp2::mulC(Lg(0), Lg(1), Lg(2)); Mg(0) = t;)
OP("Fp2.square", "gg", F2 t = Mg(1) * Mg(1); Fp2::square(Lg(0), Lg(1)); Mg(0) = t;)
OPX("Fp2.squareC", "gg", 1, true, F2 t = Mg(1) * Mg(1); Fp2::squareC(Lg(0), Lg(1)); Mg(0) = t;)
OP("Fp2.neg", "gg", F2 t = -Mg(1); Fp2::neg(Lg(0), Lg(1)); Mg(0) = t;)
OPX("Fp2.mul_xi", "gg", 1, true, F2 t = Mg(1) * M::C.xi; Fp2::mul_xi(Lg(0), Lg(1)); Mg(0) = t;)
OPX("Fp2.mul_xiC", "gg", 1, true, F2 t = Mg(1) * M::C.xi; Fp2::mul_xiC(Lg(0), Lg(1)); Mg(0) = t;)
OP("Fp2.mul_Fp_0", "ggf", F2 t = Mg(1) * Mf(2); Fp2::mul_Fp_0(Lg(0), Lg(1), Lf(2)); Mg(0) = t;)
OP("Fp2.mul_Fp_0C", "ggf", F2 t = Mg(1) * Mf(2); Fp2::mul_Fp_0C(Lg(0), Lg(1), Lf(2)); Mg(0) = t;)
OP("Fp2.mul_Fp_1", "gf", F2 t = Mg(0) * F2(Z(0), Mf(1)); Fp2::mul_Fp_1(Lg(0), Lf(1)); Mg(0) = t;)
OP("Fp2.mul_x", "g", F2 t = Mg(0) * F2(Z(0), Z(1)); Lg(0).mul_x(); Mg(0) = t;)
OP("Fp2.divBy2", "gg", F2 t = Mg(1) * M::finv(Z(2)); Fp2::divBy2(Lg(0), Lg(1)); Mg(0) = t;)
OP("Fp2.divBy2C", "gg", F2 t = Mg(1) * M::finv(Z(2)); Fp2::divBy2C(Lg(0), Lg(1)); Mg(0) = t;)
OP("Fp2.divBy4", "gg", F2 t = Mg(1) * M::finv(Z(4)); Fp2::divBy4(Lg(0), Lg(1)); Mg(0) = t;)
OPX("Fp2.inverse", "g", 0, NZ(Mg(0)), F2 t = M::inv(Mg(0)); Lg(0).inverse(); Mg(0) = t;)
OP("Fp2.op+", "ggg", F2 t = Mg(1) + Mg(2); Lg(0) = Lg(1) + Lg(2); Mg(0) = t;)
OP("Fp2.op-", "ggg", F2 t = Mg(1) - Mg(2); Lg(0) = Lg(1) - Lg(2); Mg(0) = t;)
OP("Fp2.op*", "ggg", F2 t = Mg(1) * Mg(2); Lg(0) = Lg(1) * Lg(2); Mg(0) = t;)
OP("Fp2.op+=", "gg", F2 t = Mg(0) + Mg(1); Lg(0) += Lg(1); Mg(0) = t;)
OP("Fp2.op-=", "gg", F2 t = Mg(0) - Mg(1); Lg(0) -= Lg(1); Mg(0) = t;)
OP("Fp2.op*=", "gg", F2 t = Mg(0) * Mg(1); Lg(0) *= Lg(1); Mg(0) = t;)
OP("Fp2.unary-", "gg", F2 t = -Mg(1); Lg(0) = -Lg(1); Mg(0) = t;)
OP("Fp2.ctor", "gff", Lg(0) = Fp2(Lf(1), Lf(2)); Mg(0) = F2(Mf(1), Mf(2));)
OP("Fp2.ctor.int", "g", int i = (int)IMM; Lg(0) = Fp2(i); Mg(0) = F2(M::md(Z(i)), Z(0));)
OP("Fp2.part", "fg", bool s = IMM & 1; Lf(0) = Lg(1).get()[s]; Mf(0) = s ? Mg(1).b : Mg(1).a;)
OP("Fp2.copy", "gg", Lg(0) = Lg(1); Mg(0) = Mg(1);)
OP("Fp2.clear", "g", Lg(0).clear(); Mg(0) = F2(0);)
OP("Fp2.cmp", "GG", expect(Lg(0) == Lg(1), Mg(0) == Mg(1)); expect(Lg(0) != Lg(1), Mg(0) != Mg(1)); expect(Lg(0).isZero(), M::isZero(Mg(0)));)
OP("Fp2.text", "gG", std::string s = Lg(1).toString(IMM & 1 ? 16 : 10); int b = IMM & 1 ? 16 : 10; expectS(s, "[" + M::str(Mg(1).a, b) + "," + M::str(Mg(1).b, b) + "]"); Lg(0).set(s); Mg(0) = Mg(1);)
OP("Fp2.power", "gg", Z e = expo(IMM); F2 t = M::pow(Mg(1), e); Lg(0) = mie::power(Lg(1), vuint(e)); Mg(0) = t;)
OP("Fp2.power.mpz", "gg", Z e = expo(IMM); F2 t = M::pow(Mg(1), e); Lg(0) = mie::power(Lg(1), e); Mg(0) = t;)

// ---- Fp6
OP("Fp6.add", "hhh", F6 t = Mh(1) + Mh(2); Fp6::add(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OP("Fp6.sub", "hhh", F6 t = Mh(1) - Mh(2); Fp6::sub(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OP("Fp6.addC", "hhh", F6 t = Mh(1) + Mh(2); Fp6::addC(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OP("Fp6.subC", "hhh", F6 t = Mh(1) - Mh(2); Fp6::subC(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OP("Fp6.mul", "hhh", F6 t = Mh(1) * Mh(2); Fp6::mul(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OP("Fp6.mulC", "hhh", F6 t = Mh(1) * Mh(2); Fp6::mulC(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OPX("Fp6.square", "hh", 1, true, F6 t = Mh(1) * Mh(1); Fp6::square(Lh(0), Lh(1)); Mh(0) = t;)
OP("Fp6.neg", "hh", F6 t = -Mh(1); Fp6::neg(Lh(0), Lh(1)); Mh(0) = t;)
OPX("Fp6.inverse", "h", 0, NZ(Mh(0)), F6 t = M::inv(Mh(0)); Lh(0).inverse(); Mh(0) = t;)
OP("Fp6.op+", "hhh", F6 t = Mh(1) + Mh(2); Lh(0) = Lh(1) + Lh(2); Mh(0) = t;)
OP("Fp6.op-=", "hh", F6 t = Mh(0) - Mh(1); Lh(0) -= Lh(1); Mh(0) = t;)
OP("Fp6.op*=", "hh", F6 t = Mh(0) * Mh(1); Lh(0) *= Lh(1); Mh(0) = t;)
OP("Fp6.op*", "hhh", F6 t = Mh(1) * Mh(2); Lh(0) = Lh(1) * Lh(2); Mh(0) = t;)
OP("Fp6.unary-", "hh", F6 t = -Mh(1); Lh(0) = -Lh(1); Mh(0) = t;)
OP("Fp6.ctor", "hggg", Lh(0) = Fp6(Lg(1), Lg(2), Lg(3)); Mh(0).c[0] = Mg(1); Mh(0).c[1] = Mg(2); Mh(0).c[2] = Mg(3);)
OP("Fp6.set", "hggg", Lh(0).set(Lg(1), Lg(2), Lg(3)); Mh(0).c[0] = Mg(1); Mh(0).c[1] = Mg(2); Mh(0).c[2] = Mg(3);)
OP("Fp6.ctor.Fp", "hffff", Lh(0) = Fp6(Lf(1), Lf(2), Lf(3), Lf(4), Lf(2), Lf(1)); Mh(0).c[0] = F2(Mf(1), Mf(2)); Mh(0).c[1] = F2(Mf(3), Mf(4)); Mh(0).c[2] = F2(Mf(2), Mf(1));)
OP("Fp6.part", "gh", int s = IMM % 3; Lg(0) = Lh(1).getFp2()[s]; Mg(0) = Mh(1).c[s];)
OP("Fp6.copy", "hh", Lh(0) = Lh(1); Mh(0) = Mh(1);)
OP("Fp6.clear", "h", Lh(0).clear(); Mh(0) = M::zero6();)
OP("Fp6.ctor.int", "h", int i = (int)IMM; Lh(0) = Fp6(i); Mh(0) = M::zero6(); Mh(0).c[0] = F2(M::md(Z(i)), Z(0));)
OP("Fp6.cmp", "HH", expect(Lh(0) == Lh(1), Mh(0) == Mh(1)); expect(Lh(0) != Lh(1), !(Mh(0) == Mh(1))); expect(Lh(0).isZero(), M::isZero(Mh(0)));)
OP("Fp6.mul_Fp_b", "hf", F6 t = Mh(0); t.c[1] = t.c[1] * Mf(1); Fp6::mul_Fp_b(Lh(0), Lf(1)); Mh(0) = t;)
OP("Fp6.mul_Fp_c", "hf", F6 t = Mh(0); t.c[2] = t.c[2] * Mf(1); Fp6::mul_Fp_c(Lh(0), Lf(1)); Mh(0) = t;)
OP("Fp6.mulFp6_24_Fp_01", "hff", F6 t = Mh(0); t.c[2] = t.c[2] * Mf(1); t.c[1] = t.c[1] * Mf(2); Fp pp[2] = { Lf(1), Lf(2) }; Fp6::mulFp6_24_Fp_01(Lh(0), pp); Mh(0) = t;)
OPX("Fp6.mul_gamma_add", "hhh", 1, true, F6 t = shiftV(Mh(1)) + Mh(2); bn::mul_gamma_add<Fp6, Fp2>(Lh(0), Lh(1), Lh(2)); Mh(0) = t;)
OPX("Fp6.power", "hh", 2, true, Z e = expoSmall(IMM); F6 t = M::pow(Mh(1), e); Lh(0) = mie::power(Lh(1), vuint(e)); Mh(0) = t;)

// ---- Fp12
OP("Fp12.add", "kkk", F12 t = Mk(1) + Mk(2); Fp12::add(Lk(0), Lk(1), Lk(2)); Mk(0) = t;)
OP("Fp12.sub", "kkk", F12 t = Mk(1) - Mk(2); Fp12::sub(Lk(0), Lk(1), Lk(2)); Mk(0) = t;)
OP("Fp12.mul", "kkk", F12 t = Mk(1) * Mk(2); Fp12::mul(Lk(0), Lk(1), Lk(2)); Mk(0) = t;)
OP("Fp12.mulC", "kkk", F12 t = Mk(1) * Mk(2); Fp12::mulC(Lk(0), Lk(1), Lk(2)); Mk(0) = t;)
OP("Fp12.square", "k", F12 t = Mk(0) * Mk(0); Fp12::square(Lk(0)); Mk(0) = t;)
OP("Fp12.squareC", "k", F12 t = Mk(0) * Mk(0); Fp12::squareC(Lk(0)); Mk(0) = t;)
OP("Fp12.neg", "kk", F12 t = -Mk(1); Fp12::neg(Lk(0), Lk(1)); Mk(0) = t;)
OPX("Fp12.inverse", "k", 0, NZ(Mk(0)), F12 t = M::inv(Mk(0)); Lk(0).inverse(); Mk(0) = t;)
OP("Fp12.op+", "kkk", F12 t = Mk(1) + Mk(2); Lk(0) = Lk(1) + Lk(2); Mk(0) = t;)
OP("Fp12.op-", "kkk", F12 t = Mk(1) - Mk(2); Lk(0) = Lk(1) - Lk(2); Mk(0) = t;)
OP("Fp12.op*=", "kk", F12 t = Mk(0) * Mk(1); Lk(0) *= Lk(1); Mk(0) = t;)
OP("Fp12.op+=", "kk", F12 t = Mk(0) + Mk(1); Lk(0) += Lk(1); Mk(0) = t;)
OP("Fp12.op-=", "kk", F12 t = Mk(0) - Mk(1); Lk(0) -= Lk(1); Mk(0) = t;)
OP("Fp12.ctor", "khh", Lk(0) = Fp12(Lh(1), Lh(2)); for (int i = 0; i < 3; i++) { Mk(0).c[2 * i] = Mh(1).c[i]; Mk(0).c[2 * i + 1] = Mh(2).c[i]; })
OP("Fp12.ctor.Fp2", "kgggg", if (IMM & 1) Lk(0) = Fp12(Lg(1), Lg(2), Lg(3), Lg(4), Lg(2), Lg(1)); else Lk(0).set(Lg(1), Lg(2), Lg(3), Lg(4), Lg(2), Lg(1)); F12& t = Mk(0); t.c[0] = Mg(1); t.c[2] = Mg(2); t.c[4] = Mg(3); t.c[1] = Mg(4); t.c[3] = Mg(2); t.c[5] = Mg(1);)
OP("Fp12.ctor.Fp", "kffff", Lk(0) = Fp12(Lf(1), Lf(2), Lf(3), Lf(4), Lf(2), Lf(3), Lf(4), Lf(1), Lf(3), Lf(1), Lf(4), Lf(2)); F12& t = Mk(0); t.c[0] = F2(Mf(1), Mf(2)); t.c[2] = F2(Mf(3), Mf(4)); t.c[4] = F2(Mf(2), Mf(3)); t.c[1] = F2(Mf(4), Mf(1)); t.c[3] = F2(Mf(3), Mf(1)); t.c[5] = F2(Mf(4), Mf(2));)
OPX("Fp12.2z_add_3x", "gg", 1, true, F2 t = Mg(0) * Z(2) + Mg(1) * Z(3); Fp12 k; k.Fp2_2z_add_3x(Lg(0), Lg(1)); Mg(0) = t;)
OPX("Fp12.sq_Fp4", "gggg", 0, A(0) != A(1), F2 t = Mg(2) * Mg(2) + M::C.xi * (Mg(3) * Mg(3)); F2 v = (Mg(2) * Mg(3)) * Z(2); Fp2 a; Fp2 b; Fp12::sq_Fp4UseDbl(a, b, Lg(2), Lg(3)); if (!canon(b) || !(val(b) == v)) bad("the second part"); Lg(0) = a; Mg(0) = t;)
OP("Fp12.part", "hk", bool s = IMM & 1; Lh(0) = s ? Lk(1).b_ : Lk(1).a_; for (int i = 0; i < 3; i++) Mh(0).c[i] = Mk(1).c[2 * i + s];)
OP("Fp12.copy", "kk", Lk(0) = Lk(1); Mk(0) = Mk(1);)
OP("Fp12.clear", "k", Lk(0).clear(); Mk(0) = M::zero12();)
OP("Fp12.ctor.int", "k", int i = (int)IMM; Lk(0) = Fp12(i); Mk(0) = M::zero12(); Mk(0).c[0] = F2(M::md(Z(i)), Z(0));)
OP("Fp12.cmp", "KK", expect(Lk(0) == Lk(1), Mk(0) == Mk(1)); expect(Lk(0) != Lk(1), Mk(0) != Mk(1)); expect(Lk(0).isZero(), M::isZero(Mk(0)));)
OP("Fp12.mul_024", "kh", F12 t = Mk(0) * sparse(Mh(1)); Fp12Dbl::mul_Fp2_024(Lk(0), Lh(1)); Mk(0) = t;)
OP("Fp12.mul_024C", "kh", F12 t = Mk(0) * sparse(Mh(1)); Fp12Dbl::mul_Fp2_024C(Lk(0), Lh(1)); Mk(0) = t;)
OP("Fp12.mul_024_024", "khh", F12 t = sparse(Mh(1)) * sparse(Mh(2)); Fp12Dbl::mul_Fp2_024_Fp2_024(Lk(0), Lh(1), Lh(2)); Mk(0) = t;)
OP("Fp12.Frobenius", "kk", F12 t = M::frobn(Mk(1), 1); Lk(1).Frobenius(Lk(0)); Mk(0) = t;)
OP("Fp12.Frobenius2", "kk", F12 t = M::frobn(Mk(1), 2); Lk(1).Frobenius2(Lk(0)); Mk(0) = t;)
OP("Fp12.Frobenius3", "kk", F12 t = M::frobn(Mk(1), 3); Lk(1).Frobenius3(Lk(0)); Mk(0) = t;)
OPX("Fp12.power", "kk", 2, true, Z e = expoSmall(IMM); F12 t = M::pow(Mk(1), e); Lk(0) = mie::power(Lk(1), vuint(e)); Mk(0) = t;)
OPX("Fp12.power.int", "kk", 2, true, int e = (int)(IMM & 0x7ffff); F12 t = M::pow(Mk(1), Z(e)); Lk(0) = mie::power(Lk(1), e); Mk(0) = t;)
OPX("Fp12.text", "kK", 2, true, std::ostringstream os; if (IMM & 1) os << std::hex; os << Lk(1); std::istringstream is(os.str()); is >> Lk(0); expect(!!is, true); Mk(0) = Mk(1);)

// ---- lazy (unreduced) Fp words: exact integers below 2^256
#define IN256(x) ((x) >= 0 && (x) < M::C.R)
OP("n.load", "nf", Ln(0) = Lf(1); Mn(0) = M::fmul(Mf(1), M::C.R);)
OPX("n.addNC", "nnn", 0, IN256(Mn(1) + Mn(2)), Z t = Mn(1) + Mn(2); Fp::addNC(Ln(0), Ln(1), Ln(2)); Mn(0) = t;)
OPX("n.subNC", "nnn", 0, Mn(1) >= Mn(2), Z t = Mn(1) - Mn(2); Fp::subNC(Ln(0), Ln(1), Ln(2)); Mn(0) = t;)
OP("n.shr1", "nn", Z t = Mn(1) >> 1; Fp::shr1(Ln(0), Ln(1)); Mn(0) = t;)
OP("n.shr2", "nn", Z t = Mn(1) >> 2; Fp::shr2(Ln(0), Ln(1)); Mn(0) = t;)
OP("n.directP", "n", int i = (int)(IMM % (SNARK ? 6 : 7)); Ln(0) = Fp::getDirectP(i); Mn(0) = P() * i;)
OPX("n.fast_modp", "n", 0, Mn(0) <= (SNARK ? 5 : 6) * P(), Z t = M::md(Mn(0)); Fp::fast_modp(Ln(0)); Mn(0) = t;)
OPX("n.store", "fn", 0, Mn(1) < P(), Lf(0) = Ln(1); Mf(0) = M::fmul(Mn(1), M::C.Rinv);)
OPX("Fp2.addNC", "gg", 0, Mg(0) == Mg(0), Fp2 t; Fp2::addNC(t, Lg(0), Lg(1)); expectZ(raw(t.a_), M::fmul(Mg(0).a, M::C.R) + M::fmul(Mg(1).a, M::C.R)); expectZ(raw(t.b_), M::fmul(Mg(0).b, M::C.R) + M::fmul(Mg(1).b, M::C.R)); Fp2::subNC(t, t, Lg(1)); if (t != Lg(0)) bad("subNC does not undo addNC");)
OPX("Fp2.addNC_C", "GG", 0, true, Fp2 t; Fp2::addNC_C(t, Lg(0), Lg(1)); expectZ(raw(t.a_), M::fmul(Mg(0).a, M::C.R) + M::fmul(Mg(1).a, M::C.R)); expectZ(raw(t.b_), M::fmul(Mg(0).b, M::C.R) + M::fmul(Mg(1).b, M::C.R)); Fp2::subNC_C(t, t, Lg(1)); if (t != Lg(0)) bad("subNC_C does not undo addNC_C");)

// ---- FpDbl: exact 512 bit integers
OPX("FpDbl.mul", "dnn", 0, Mn(1) * Mn(2) < M::C.W, Z t = Mn(1) * Mn(2); FpDbl::mul(Ld(0), Ln(1), Ln(2)); Md(0) = t;)
OP("FpDbl.mul.f", "dff", Z t = M::fmul(Mf(1), M::C.R) * M::fmul(Mf(2), M::C.R); FpDbl::mul(Ld(0), Lf(1), Lf(2)); Md(0) = t;)
OPX("FpDbl.add", "ddd", 0, Md(1) < PN() && Md(2) < PN(), Z t = modm(Md(1) + Md(2), PN()); FpDbl::add(Ld(0), Ld(1), Ld(2)); Md(0) = t;)
OPX("FpDbl.sub", "ddd", 0, Md(1) < PN() && Md(2) < PN(), Z t = modm(Md(1) - Md(2), PN()); FpDbl::sub(Ld(0), Ld(1), Ld(2)); Md(0) = t;)
OPX("FpDbl.neg", "dd", 0, Md(1) < PN(), Z t = modm(-Md(1), PN()); FpDbl::neg(Ld(0), Ld(1)); Md(0) = t;)
OPX("FpDbl.addNC", "ddd", 0, Md(1) + Md(2) < M::C.W, Z t = Md(1) + Md(2); FpDbl::addNC(Ld(0), Ld(1), Ld(2)); Md(0) = t;)
OPX("FpDbl.subNC", "ddd", 0, Md(1) >= Md(2), Z t = Md(1) - Md(2); FpDbl::subNC(Ld(0), Ld(1), Ld(2)); Md(0) = t;)
OPX("FpDbl.subOpt1", "ddd", 1, Md(1) + PN() / 2 - Md(2) >= 0 && Md(1) + PN() / 2 < M::C.W, Z t = Md(1) + PN() / 2 - Md(2); FpDbl::subOpt1(Ld(0), Ld(1), Ld(2)); Md(0) = t;)
OPX("FpDbl.mod", "fd", 0, Md(1) < PN(), FpDbl::mod(Lf(0), Ld(1)); Mf(0) = dval(Md(1));)
OP("FpDbl.ctor", "df", Ld(0) = FpDbl(Lf(1)); Md(0) = M::fmul(Mf(1), M::C.R) * M::fmul(M::C.R, M::C.R);)
OP("FpDbl.cmp", "DD", expect(Ld(0) == Ld(1), Md(0) == Md(1)); expect(Ld(0) != Ld(1), Md(0) != Md(1)); expect(Ld(0) < Ld(1), Md(0) < Md(1));)
OP("FpDbl.clear", "d", Ld(0).clear(); Md(0) = 0;)
OP("FpDbl.direct", "d", Rng r(IMM); Z z = genWords(r, 8); if (r.chance(1, 2)) z = modm(z, PN()); FpDbl::setDirect(Ld(0), vuint(z)); Md(0) = z; expectZ(val(Ld(0).getDirect()), z);)
OP("FpDbl.text", "dd", Rng r(IMM); Z z = genWords(r, 8); int b = r.chance(1, 2) ? 16 : 10; expectS(Ld(1).toString(b), "Dbl(" + M::str(Md(1), b) + ")"); std::ostringstream os; if (b == 16) os << std::hex; os << Ld(1); expectS(os.str(), "Dbl(" + M::str(Md(1), b) + ")"); if (r.chance(1, 2)) FpDbl::setDirect(Ld(0), M::str(z, b)); else Ld(0) = FpDbl(M::str(z, b)); Md(0) = z;)
OP("FpDbl.words", "dd", Z t = Md(1); const FpDbl& x = Ld(1); FpDbl y; for (size_t i = 0; i < x.size(); i++) y[i] = x[i]; Ld(0) = y; Md(0) = t;)
OP("FpDbl.rel", "DD", expect(Ld(0) > Ld(1), Md(0) > Md(1)); expect(Ld(0) <= Ld(1), Md(0) <= Md(1)); expect(Ld(0) >= Ld(1), Md(0) >= Md(1));)
OPX("FpDbl.unary-", "dd", 0, Md(1) < PN(), Z t = modm(-Md(1), PN()); Ld(0) = -Ld(1); Md(0) = t;)
OPX("FpDbl.op+", "ddd", 0, Md(1) < PN() && Md(2) < PN(), bool s = IMM & 1; Z t = modm(s ? Z(Md(1) - Md(2)) : Z(Md(1) + Md(2)), PN()); Ld(0) = s ? Ld(1) - Ld(2) : Ld(1) + Ld(2); Md(0) = t;)
OPX("FpDbl.op+=", "dd", 0, Md(0) < PN() && Md(1) < PN(), Z t = modm(Md(0) + Md(1), PN()); Ld(0) += Ld(1); Md(0) = t;)
OPX("FpDbl.op-=", "dd", 0, Md(0) < PN() && Md(1) < PN(), Z t = modm(Md(0) - Md(1), PN()); Ld(0) -= Ld(1); Md(0) = t;)

// ---- Fp2Dbl, Fp6Dbl, Fp12Dbl
void adopt(std::vector<Z>& dst, const std::vector<Z>& got, const std::vector<Z>& want)
{
	// same value modulo p, and inside the range every following operation relies on
	for (size_t i = 0; i < got.size(); i++) {
		if (modm(got[i], P()) != modm(want[i], P())) bad(strf("word %d has a wrong value", (int)i));
		if (got[i] >= PN()) bad(strf("word %d is out of range", (int)i));
	}
	dst = got;
}
OPX("Fp2Dbl.mulOpt1", "egg", 0, true, F2 t = Mg(1) * Mg(2); Fp2Dbl::mulOpt1(Le(0), Lg(1), Lg(2)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.mulOpt2", "egg", 0, true, F2 t = Mg(1) * Mg(2); Fp2Dbl::mulOpt2(Le(0), Lg(1), Lg(2)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.mulOptC", "egg", 0, true, F2 t = Mg(1) * Mg(2); if (IMM & 1) Fp2Dbl::mulOpt1C(Le(0), Lg(1), Lg(2)); else Fp2Dbl::mulOpt2C(Le(0), Lg(1), Lg(2)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.mulOpt2.NC", "eggg", 0, true, Fp2 s; Fp2::addNC(s, Lg(1), Lg(2)); F2 t = (Mg(1) + Mg(2)) * Mg(3); Fp2Dbl::mulOpt2(Le(0), s, Lg(3)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.square", "eg", 0, true, F2 t = Mg(1) * Mg(1); Fp2Dbl::square(Le(0), Lg(1)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.squareC", "eg", 0, true, F2 t = Mg(1) * Mg(1); Fp2Dbl::squareC(Le(0), Lg(1)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.add", "eee", 0, small(Me(1)) && small(Me(2)), std::vector<Z> t = addPN(Me(1), Me(2)); Fp2Dbl::add(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.sub", "eee", 0, small(Me(1)) && small(Me(2)), std::vector<Z> t = subPN(Me(1), Me(2)); Fp2Dbl::sub(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.neg", "ee", 0, small(Me(1)), std::vector<Z> t = negPN(Me(1)); Fp2Dbl::neg(Le(0), Le(1)); Me(0) = t;)
OPX("Fp2Dbl.addNC", "eee", 0, inW(addV(Me(1), Me(2))), std::vector<Z> t = addV(Me(1), Me(2)); Fp2Dbl::addNC(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.subNC", "eee", 0, inW(subV(Me(1), Me(2))), std::vector<Z> t = subV(Me(1), Me(2)); Fp2Dbl::subNC(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.mul_xi", "ee", 1, small(Me(1)), F2 t = dv2(Me(1)) * M::C.xi; Fp2Dbl::mul_xi(Le(0), Le(1)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.mul_xiC", "ee", 1, small(Me(1)), F2 t = dv2(Me(1)) * M::C.xi; Fp2Dbl::mul_xiC(Le(0), Le(1)); adopt(Me(0), vec(Le(0)), rep2(t));)
OPX("Fp2Dbl.addC", "eee", 0, small(Me(1)) && small(Me(2)), std::vector<Z> t = addPN(Me(1), Me(2)); Fp2Dbl::addC(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.subC", "eee", 0, small(Me(1)) && small(Me(2)), std::vector<Z> t = subPN(Me(1), Me(2)); Fp2Dbl::subC(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.negC", "ee", 0, small(Me(1)), std::vector<Z> t = negPN(Me(1)); Fp2Dbl::negC(Le(0), Le(1)); Me(0) = t;)
OPX("Fp2Dbl.addNC_C", "eee", 0, inW(addV(Me(1), Me(2))), std::vector<Z> t = addV(Me(1), Me(2)); Fp2Dbl::addNC_C(Le(0), Le(1), Le(2)); Me(0) = t;)
OPX("Fp2Dbl.subNC_C", "eee", 0, inW(subV(Me(1), Me(2))), std::vector<Z> t = subV(Me(1), Me(2)); Fp2Dbl::subNC_C(Le(0), Le(1), Le(2)); Me(0) = t;)
OP("Fp2Dbl.clear", "e", Le(0).clear(); Me(0) = std::vector<Z>(2, Z(0));)
OP("Fp2Dbl.cmp", "EE", expect(Le(0) == Le(1), Me(0) == Me(1)); expect(Le(0) != Le(1), Me(0) != Me(1));)
OP("Fp2Dbl.text", "E", expectS(Le(0).toString(), "[Dbl(" + M::str(Me(0)[0]) + "),Dbl(" + M::str(Me(0)[1]) + ")]"); std::ostringstream os; os << std::hex << Le(0); expectS(os.str(), "[Dbl(" + M::str(Me(0)[0], 16) + "),Dbl(" + M::str(Me(0)[1], 16) + ")]");)
OP("Fp2Dbl.setDirect.Vuint", "edd", Z a = Md(1); Z b = Md(2); Le(0).setDirect(vuint(a), vuint(b)); Me(0).resize(2); Me(0)[0] = a; Me(0)[1] = b;)
OP("Fp2Dbl.ctor.Dbl", "edd", if (IMM & 1) Le(0) = Fp2Dbl(Ld(1), Ld(2)); else Le(0) = Fp2Dbl(M::str(Md(1)), M::str(Md(2))); Me(0).resize(2); Me(0)[0] = Md(1); Me(0)[1] = Md(2);)
OP("Fp2Dbl.ctor.Fp", "eff", Le(0) = Fp2Dbl(Lf(1), Lf(2)); adopt(Me(0), vec(Le(0)), rep2(F2(Mf(1), Mf(2)) * M::C.R));)
OPX("Fp2Dbl.unary-", "ee", 0, small(Me(1)), std::vector<Z> t = negPN(Me(1)); Le(0) = -Le(1); Me(0) = t;)
OPX("Fp2Dbl.op+", "eee", 0, small(Me(1)) && small(Me(2)), bool s = IMM & 1; std::vector<Z> t = s ? subPN(Me(1), Me(2)) : addPN(Me(1), Me(2)); Le(0) = s ? Le(1) - Le(2) : Le(1) + Le(2); Me(0) = t;)
OPX("Fp2Dbl.mod", "ge", 0, small(Me(1)), Fp2Dbl::mod(Lg(0), Le(1)); Mg(0) = dv2(Me(1));)
OPX("Fp2Dbl.modC", "ge", 0, small(Me(1)), Fp2Dbl::modC(Lg(0), Le(1)); Mg(0) = dv2(Me(1));)
OP("Fp2Dbl.ctor", "eg", Le(0) = Fp2Dbl(Lg(1)); adopt(Me(0), vec(Le(0)), rep2(Mg(1) * M::C.R));)
OP("Fp2Dbl.setDirect", "edd", Le(0).setDirect(Ld(1), Ld(2)); Me(0).resize(2); Me(0)[0] = Md(1); Me(0)[1] = Md(2);)
OPX("Fp2Dbl.op-=", "ee", 0, small(Me(0)) && small(Me(1)), std::vector<Z> t = subPN(Me(0), Me(1)); Le(0) -= Le(1); Me(0) = t;)
OPX("Fp2Dbl.op+=", "ee", 0, small(Me(0)) && small(Me(1)), std::vector<Z> t = addPN(Me(0), Me(1)); Le(0) += Le(1); Me(0) = t;)
OPX("Fp6Dbl.mul", "uhh", 0, true, F6 t = Mh(1) * Mh(2); Fp6Dbl::mul(Lu(0), Lh(1), Lh(2)); adopt(Mu(0), vec(Lu(0)), rep6(t));)
OPX("Fp6Dbl.mulC", "uhh", 0, true, F6 t = Mh(1) * Mh(2); Fp6Dbl::mulC(Lu(0), Lh(1), Lh(2)); adopt(Mu(0), vec(Lu(0)), rep6(t));)
OPX("Fp6Dbl.add", "uuu", 0, small(Mu(1)) && small(Mu(2)), std::vector<Z> t = addPN(Mu(1), Mu(2)); Fp6Dbl::add(Lu(0), Lu(1), Lu(2)); Mu(0) = t;)
OPX("Fp6Dbl.sub", "uuu", 0, small(Mu(1)) && small(Mu(2)), std::vector<Z> t = subPN(Mu(1), Mu(2)); Fp6Dbl::sub(Lu(0), Lu(1), Lu(2)); Mu(0) = t;)
OPX("Fp6Dbl.neg", "uu", 0, small(Mu(1)), std::vector<Z> t = negPN(Mu(1)); Fp6Dbl::neg(Lu(0), Lu(1)); Mu(0) = t;)
OPX("Fp6Dbl.mod", "hu", 0, small(Mu(1)), Fp6Dbl::mod(Lh(0), Lu(1)); Mh(0) = dv6(Mu(1));)
OP("Fp6Dbl.ctor", "uh", Lu(0) = Fp6Dbl(Lh(1)); F6 t; for (int i = 0; i < 3; i++) t.c[i] = Mh(1).c[i] * M::C.R; adopt(Mu(0), vec(Lu(0)), rep6(t));)
OPX("Fp6Dbl.addNC", "uuu", 0, inW(addV(Mu(1), Mu(2))), std::vector<Z> t = addV(Mu(1), Mu(2)); Fp6Dbl::addNC(Lu(0), Lu(1), Lu(2)); Mu(0) = t;)
OPX("Fp6Dbl.subNC", "uuu", 0, inW(subV(Mu(1), Mu(2))), std::vector<Z> t = subV(Mu(1), Mu(2)); Fp6Dbl::subNC(Lu(0), Lu(1), Lu(2)); Mu(0) = t;)
OPX("Fp6Dbl.subNC.undo", "uuu", 0, inW(addV(Mu(1), Mu(2))), std::vector<Z> t = Mu(1); Fp6Dbl s; Fp6Dbl::addNC(s, Lu(1), Lu(2)); Fp6Dbl::subNC(Lu(0), s, Lu(2)); Mu(0) = t;)
OP("Fp6Dbl.setDirect", "ueee", if (IMM & 1) Lu(0).setDirect(Le(1), Le(2), Le(3)); else Lu(0) = Fp6Dbl(Le(1), Le(2), Le(3)); std::vector<Z> t = Me(1); t.insert(t.end(), Me(2).begin(), Me(2).end()); t.insert(t.end(), Me(3).begin(), Me(3).end()); Mu(0) = t;)
OP("Fp6Dbl.setDirect.Vuint", "uddd", const Z a = Md(1); const Z b = Md(2); const Z c = Md(3); if (IMM & 1) Lu(0).setDirect(vuint(a), vuint(b), vuint(c), vuint(b), vuint(a), vuint(c)); else Lu(0) = Fp6Dbl(M::str(a), M::str(b), M::str(c), M::str(b), M::str(a), M::str(c)); Z t[6] = { a, b, c, b, a, c }; Mu(0) = std::vector<Z>(t, t + 6);)
OP("Fp6Dbl.ctor.Fp2", "uggg", Lu(0) = Fp6Dbl(Lg(1), Lg(2), Lg(3)); F6 t; for (int i = 0; i < 3; i++) t.c[i] = Mg(i + 1) * M::C.R; adopt(Mu(0), vec(Lu(0)), rep6(t));)
OP("Fp6Dbl.part", "eu", int s = IMM % 3; const Fp6Dbl& x = Lu(1); Le(0) = x.get()[s]; std::vector<Z> t(Mu(1).begin() + 2 * s, Mu(1).begin() + 2 * s + 2); Me(0) = t;)
OP("Fp6Dbl.cmp", "UU", expect(Lu(0) == Lu(1), Mu(0) == Mu(1)); expect(Lu(0) != Lu(1), Mu(0) != Mu(1)); Fp6Dbl c = Lu(0); expect(c == Lu(0), true); ((FpDbl *)&c)[IMM % 6][(IMM >> 8) % 8] ^= (u64)1 << (IMM >> 16) % 64; expect(c == Lu(0), false); expect(Lu(0) != c, true);)
OP("Fp6Dbl.text", "U", std::string s; for (int i = 0; i < 3; i++) s += strf(i ? ",\n" : "[") + "[Dbl(" + M::str(Mu(0)[2 * i]) + "),Dbl(" + M::str(Mu(0)[2 * i + 1]) + ")]"; s += "]"; expectS(Lu(0).toString(), s); std::ostringstream os; os << Lu(0); expectS(os.str(), s);)
OPX("Fp6Dbl.op+", "uuu", 0, small(Mu(1)) && small(Mu(2)), bool s = IMM & 1; std::vector<Z> t = s ? subPN(Mu(1), Mu(2)) : addPN(Mu(1), Mu(2)); Lu(0) = s ? Lu(1) - Lu(2) : Lu(1) + Lu(2); Mu(0) = t;)
OPX("Fp12Dbl.neg", "w", 0, small(Mw(0)), std::vector<Z> t = negPN(Mw(0)); Fp12Dbl::neg(Lw(0), Lw(0)); Mw(0) = t;)
OPX("Fp12Dbl.addNC", "wuu", 0, true, std::vector<Z> v = Mu(1); v.insert(v.end(), Mu(2).begin(), Mu(2).end()); if (!inW(addV(Mw(0), v))) return; Fp12Dbl t(Lu(1), Lu(2)); Fp12Dbl s; Fp12Dbl::addNC(s, Lw(0), t); if (vec(s) != addV(Mw(0), v)) bad("addNC"); if (IMM & 1) { Fp12Dbl::subNC(Lw(0), s, Lw(0)); Mw(0) = v; } else Fp12Dbl::subNC(Lw(0), s, t);)
OP("Fp12Dbl.ctor", "wk", Lw(0) = Fp12Dbl(Lk(1)); F6 a; F6 b; for (int i = 0; i < 3; i++) { a.c[i] = Mk(1).c[2 * i] * M::C.R; b.c[i] = Mk(1).c[2 * i + 1] * M::C.R; } std::vector<Z> t = rep6(a); std::vector<Z> v = rep6(b); t.insert(t.end(), v.begin(), v.end()); adopt(Mw(0), vec(Lw(0)), t);)
OP("Fp12Dbl.cmp", "WUU", Fp12Dbl t(Lu(1), Lu(2)); std::vector<Z> v = Mu(1); v.insert(v.end(), Mu(2).begin(), Mu(2).end()); expect(Lw(0) == t, Mw(0) == v); expect(Lw(0) != t, Mw(0) != v); t = Lw(0); expect(t == Lw(0), true); ((FpDbl *)&t)[IMM % 12][(IMM >> 8) % 8] ^= (u64)1 << (IMM >> 16) % 64; expect(t == Lw(0), false); expect(Lw(0) != t, true);)
OP("Fp12Dbl.text", "W", std::string s = "["; for (int i = 0; i < 6; i++) s += strf(i == 3 ? "]" : "") + (i ? ",\n" : "") + (i % 3 ? "" : "[") + "[Dbl(" + M::str(Mw(0)[2 * i]) + "),Dbl(" + M::str(Mw(0)[2 * i + 1]) + ")]"; s += "]]"; expectS(Lw(0).toString(), s);)
OP("Fp12Dbl.setDirect", "wuu", Lw(0).setDirect(Lu(1), Lu(2)); std::vector<Z> t = Mu(1); t.insert(t.end(), Mu(2).begin(), Mu(2).end()); Mw(0) = t;)
OPX("Fp12Dbl.mod", "kw", 0, small(Mw(1)), Fp12Dbl::mod(Lk(0), Lw(1)); F6 a = dv6(Mw(1), 0); F6 b = dv6(Mw(1), 6); for (int i = 0; i < 3; i++) { Mk(0).c[2 * i] = a.c[i]; Mk(0).c[2 * i + 1] = b.c[i]; })
OPX("Fp12Dbl.add", "wuu", 0, small(Mw(0)) && small(Mu(1)) && small(Mu(2)), Fp12Dbl t; t.setDirect(Lu(1), Lu(2)); std::vector<Z> v = Mu(1); v.insert(v.end(), Mu(2).begin(), Mu(2).end()); if (IMM & 1) { Fp12Dbl::add(Lw(0), Lw(0), t); Mw(0) = addPN(Mw(0), v); } else { Fp12Dbl::sub(Lw(0), Lw(0), t); Mw(0) = subPN(Mw(0), v); })

std::string canonText(const char *t) { return std::string("the result is not the unique reduced representation ") + t; }
void verify(char kind, int r)
{
	switch (kind) {
	case 'f': if (!canon(*m->f[r])) violate("not-canonical", m->what + ": " + canonText("in f")); if (val(*m->f[r]) != m->mf[r]) bad("gave " + zhex(val(*m->f[r])) + " instead of " + zhex(m->mf[r])); break;
	case 'g': if (!canon(*m->g[r])) violate("not-canonical", m->what + ": " + canonText("in g")); if (val(*m->g[r]) != m->mg[r]) bad("gave " + M::str(val(*m->g[r])) + " instead of " + M::str(m->mg[r])); break;
	case 'h': if (!canon(*m->h[r])) violate("not-canonical", m->what + ": " + canonText("in h")); if (!(val(*m->h[r]) == m->mh[r])) bad("wrong Fp6"); break;
	case 'k': if (!canon(*m->k[r])) violate("not-canonical", m->what + ": " + canonText("in k")); if (val(*m->k[r]) != m->mk[r]) bad("wrong Fp12"); break;
	case 'n': if (raw(*m->n[r]) != m->mn[r]) bad("gave " + zhex(raw(*m->n[r])) + " instead of " + zhex(m->mn[r])); break;
	case 'd': if (raw(*m->d[r]) != m->md[r]) bad("gave " + zhex(raw(*m->d[r])) + " instead of " + zhex(m->md[r])); break;
	case 'e': if (vec(*m->e[r]) != m->me[r].z) bad("wrong double width words"); break;
	case 'u': if (vec(*m->u[r]) != m->mu[r].z) bad("wrong double width words"); break;
	case 'w': if (vec(*m->w[r]) != m->mw[r].z) bad("wrong double width words"); break;
	}
}
void *addr(char kind, int r)
{
	switch (kind) {
	case 'f': return m->f[r]; case 'g': return m->g[r]; case 'h': return m->h[r]; case 'k': return m->k[r]; case 'n': return m->n[r];
	case 'd': return m->d[r]; case 'e': return m->e[r]; case 'u': return m->u[r]; default: return m->w[r];
	}
}
int count(char kind)
{
	switch (kind) { case 'f': return NF; case 'g': return NG; case 'h': return NH; case 'k': return NK; case 'n': return NN; case 'd': return ND; case 'e': return NE; case 'u': return NU; default: return NW; }
}
char low(char c) { return (char)(c | 32); }

// relations between operands that select exceptional paths
std::string relation(const Op& o)
{
	std::string s = o.name;
	size_t n = strlen(o.sig);
	for (size_t i = 0; i < n; i++) for (size_t j = i + 1; j < n; j++) if (low(o.sig[i]) == low(o.sig[j]) && A(i) == A(j)) s += strf("=%d%d", (int)i, (int)j);
	for (size_t i = 0; i < n; i++) {
		bool z = false;
		switch (low(o.sig[i])) { case 'f': z = Mf(i) == 0; break; case 'g': z = M::isZero(Mg(i)); break; case 'h': z = M::isZero(Mh(i)); break; case 'k': z = M::isZero(Mk(i)); break; case 'd': z = Md(i) == 0; break; }
		if (z) s += strf("z%d", (int)i);
	}
	return s;
}

// fresh values
void load(char k, int i, u64 seed)
{
	Rng r(seed);
	switch (k) {
	case 'f': { Z v = genRawFp(r); setRaw(*m->f[i], v); m->mf[i] = M::fmul(v, M::C.Rinv); break; }
	case 'g': genRawFps(r, m->g[i]->get(), 2); m->mg[i] = val(*m->g[i]); break;
	case 'h': genRawFps(r, m->h[i]->get(), 6); m->mh[i] = val(*m->h[i]); break;
	case 'k': genRawFps(r, m->k[i]->get(), 12); m->mk[i] = val(*m->k[i]); break;
	case 'n': { Z v = r.chance(1, 2) ? genRawFp(r) : genWords(r, 4); setRaw(*m->n[i], v); m->mn[i] = v; break; }
	case 'd': { Z v = r.chance(1, 4) ? genWords(r, 8) : genDouble(r); setRaw(*m->d[i], v); m->md[i] = v; break; }
	case 'e': { FpDbl *q = m->e[i]->get(); for (int j = 0; j < 2; j++) setRaw(q[j], genDouble(r)); m->me[i].z = vec(*m->e[i]); break; }
	case 'u': { FpDbl *q = &m->u[i]->a_.a_; for (int j = 0; j < 6; j++) setRaw(q[j], genDouble(r)); m->mu[i].z = vec(*m->u[i]); break; }
	case 'w': { FpDbl *q = &m->w[i]->a_.a_.a_; for (int j = 0; j < 12; j++) setRaw(q[j], genDouble(r)); m->mw[i].z = vec(*m->w[i]); break; }
	}
}
// fresh values of two registers which are chosen together
void loadPair(char k, int i, int j, u64 seed)
{
	Rng r(seed);
	switch (k) {
	case 'f': genPairs(r, m->f[i], m->f[j], 1); m->mf[i] = val(*m->f[i]); m->mf[j] = val(*m->f[j]); break;
	case 'n': genPairs(r, m->n[i], m->n[j], 1); m->mn[i] = raw(*m->n[i]); m->mn[j] = raw(*m->n[j]); break;
	case 'g': genPairs(r, m->g[i]->get(), m->g[j]->get(), 2); m->mg[i] = val(*m->g[i]); m->mg[j] = val(*m->g[j]); break;
	case 'h': genPairs(r, m->h[i]->get(), m->h[j]->get(), 6); m->mh[i] = val(*m->h[i]); m->mh[j] = val(*m->h[j]); break;
	case 'k': genPairs(r, m->k[i]->get(), m->k[j]->get(), 12); m->mk[i] = val(*m->k[i]); m->mk[j] = val(*m->k[j]); break;
	case 'd': { // sum or difference is near a bound
		const Z x = genDouble(r), y = modm(r.chance(1, 2) ? Z(x + genWords(r, 8)) : Z(PN() - x + (long)r.below(5) - 2), PN());
		setRaw(*m->d[i], x); m->md[i] = x; setRaw(*m->d[j], y); m->md[j] = y;
		break;
	}
	default: load(k, i, seed); load(k, j, seed + 1);
	}
}
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int i = 0; i < NF; i++) m->f[i] = (Fp *)m->ar.add(strf("f%d", i), sizeof(Fp), lay * 31 + i);
	for (int i = 0; i < NG; i++) m->g[i] = (Fp2 *)m->ar.add(strf("g%d", i), sizeof(Fp2), lay * 37 + i);
	for (int i = 0; i < NH; i++) m->h[i] = (Fp6 *)m->ar.add(strf("h%d", i), sizeof(Fp6), lay * 41 + i);
	for (int i = 0; i < NK; i++) m->k[i] = (Fp12 *)m->ar.add(strf("k%d", i), sizeof(Fp12), lay * 43 + i);
	for (int i = 0; i < NN; i++) m->n[i] = (Fp *)m->ar.add(strf("n%d", i), sizeof(Fp), lay * 47 + i);
	for (int i = 0; i < ND; i++) m->d[i] = (FpDbl *)m->ar.add(strf("d%d", i), sizeof(FpDbl), lay * 53 + i);
	for (int i = 0; i < NE; i++) m->e[i] = (Fp2Dbl *)m->ar.add(strf("e%d", i), sizeof(Fp2Dbl), lay * 59 + i);
	for (int i = 0; i < NU; i++) m->u[i] = (Fp6Dbl *)m->ar.add(strf("u%d", i), sizeof(Fp6Dbl), lay * 61 + i);
	for (int i = 0; i < NW; i++) m->w[i] = (Fp12Dbl *)m->ar.add(strf("w%d", i), sizeof(Fp12Dbl), lay * 67 + i);
	initLib(p);
	Rng vr(p.hu("values"));
	for (int i = 0; i < NF; i++) { Z r = genRawFp(vr); setRaw(*m->f[i], r); m->mf[i] = M::fmul(r, M::C.Rinv); }
	for (int i = 0; i < NG; i++) { genRawFps(vr, m->g[i]->get(), 2); m->mg[i] = val(*m->g[i]); }
	for (int i = 0; i < NH; i++) { genRawFps(vr, m->h[i]->get(), 6); m->mh[i] = val(*m->h[i]); }
	for (int i = 0; i < NK; i++) { genRawFps(vr, m->k[i]->get(), 12); m->mk[i] = val(*m->k[i]); }
	for (int i = 0; i < NN; i++) { Z r = vr.chance(1, 2) ? genRawFp(vr) : genWords(vr, 4); setRaw(*m->n[i], r); m->mn[i] = r; }
	for (int i = 0; i < ND; i++) { Z r = genWords(vr, 8); if (vr.chance(2, 3)) r = modm(r, PN()); setRaw(*m->d[i], r); m->md[i] = r; }
	for (int i = 0; i < NE; i++) { FpDbl *q = m->e[i]->get(); for (int j = 0; j < 2; j++) setRaw(q[j], modm(genWords(vr, 8), PN())); m->me[i].z = vec(*m->e[i]); }
	for (int i = 0; i < NU; i++) { FpDbl *q = &m->u[i]->a_.a_; for (int j = 0; j < 6; j++) setRaw(q[j], modm(genWords(vr, 8), PN())); m->mu[i].z = vec(*m->u[i]); }
	for (int i = 0; i < NW; i++) { FpDbl *q = &m->w[i]->a_.a_.a_; for (int j = 0; j < 12; j++) setRaw(q[j], modm(genWords(vr, 8), PN())); m->mw[i].z = vec(*m->w[i]); }
	m->ar.start(lay);
	size_t done = 0;
	for (size_t i = 0; i < p.steps.size(); i++) {
		const Step& st = p.steps[i];
		m->st = &st;
		setStep(i);
		if (st.op() == "reinit") {
			Cfg c = cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		if (st.op() == "garbage") {
			poisonBelow(st.u(1), 48 << 10);
			alloc::poison = (unsigned char)st.u(1);
			stat("fault.garbage");
			continue;
		}
		if (st.op() == "load" || st.op() == "pair") {
			const std::string k = st.s(1);
			const bool two = st.op() == "pair";
			if (k.size() != 1 || !strchr("fghkndeuw", k[0]) || st.u(2) >= (u64)count(k[0]) || (two && (st.u(3) >= (u64)count(k[0]) || st.u(3) == st.u(2)))) continue;
			if (two) loadPair(k[0], (int)st.u(2), (int)st.u(3), st.u(4)); else load(k[0], (int)st.u(2), st.u(3));
			m->ar.commit();
			continue;
		}
		std::map<std::string, int>::iterator it = opIdx.find(st.op());
		if (it == opIdx.end()) continue;
		const Op& o = ops[it->second];
		const size_t n = strlen(o.sig);
		bool ok = true;
		for (size_t j = 0; j < n; j++) if (A(j) < 0 || A(j) >= count(low(o.sig[j]))) ok = false;
		if (o.flags & 1) for (size_t j = 1; j < n; j++) if (o.sig[j] == o.sig[0] && A(j) == A(0)) ok = false;
		if (!ok || !o.pre()) { stat("skipped"); continue; }
		m->what = strf("step %d ", (int)i) + o.name;
		for (size_t j = 0; j < n; j++) m->what += strf(" %c%d", low(o.sig[j]), A(j));
		std::string rel = relation(o);
		o.run();
		std::vector<void *> dests;
		if (o.sig[0] >= 'a') {
			dests.push_back(addr(o.sig[0], A(0)));
			verify(o.sig[0], A(0));
			evBytes(o.name, dests[0], o.sig[0] == 'f' || o.sig[0] == 'n' ? sizeof(Fp) : o.sig[0] == 'g' ? sizeof(Fp2) : 32);
		}
		m->ar.check(m->what, dests);
		done++;
		stat("ops");
		cover(rel);
	}
	if (done >= 3) nontrivial();
	if (done) sample(p.steps.empty() ? "" : strf("%d operations, last: ", (int)done) + m->what);
}

void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	int nclients = (int)r.range(1, 4), len = (int)r.range(4, thorough ? 160 : 60);
	// swarm: each run uses a subset of the operations, each client prefers a kind
	std::vector<int> use;
	int keep = (int)r.range(2, 10);
	for (size_t i = 0; i < ops.size(); i++) if (r.chance(keep, 10) && !((ops[i].flags & 2) && r.chance(2, 3))) use.push_back((int)i);
	if (use.size() < 3) for (size_t i = 0; i < ops.size(); i++) use.push_back((int)i);
	bool chain = r.chance(1, 2);     // operands come from the previous result
	int alias = (int)r.below(3);
	int faults = (int)r.below(4), fresh = (int)r.below(4);
	std::vector<std::map<char, int> > last(nclients);
	for (int i = 0; i < len; i++) {
		int c = (int)r.below(nclients);
		if (faults && r.chance(1, 12)) {
			if (r.chance(1, 2)) p.add(StepB("garbage")(r.below(1000)));
			else p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2)));
		}
		const Op& o = ops[use[r.below(use.size())]];
		StepB b(o.name);
		int a[5] = { 0, 0, 0, 0, 0 };
		size_t n = strlen(o.sig);
		for (size_t j = 0; j < n; j++) {
			char k = low(o.sig[j]);
			a[j] = (int)r.below(count(k));
			if (chain && j > 0 && last[c].count(k) && r.chance(1, 2)) a[j] = last[c][k];
			for (size_t q = 0; q < j; q++) if (low(o.sig[q]) == k && r.chance(alias, 4)) a[j] = a[q];
		}
		if (fresh && r.chance(fresh, 5)) {
			int i1 = -1, i2 = -1;
			for (size_t j = 0; j < n; j++) for (size_t q = j + 1; q < n; q++) if (low(o.sig[j]) == low(o.sig[q]) && a[j] != a[q] && (i1 < 0 || j)) { i1 = (int)j; i2 = (int)q; }
			if (i1 >= 0 && r.chance(4, 5)) p.add(StepB("pair")(std::string(1, low(o.sig[i1])))(a[i1])(a[i2])(r.next() >> 16));
			else { const size_t j = n > 1 ? r.range(1, n - 1) : 0; p.add(StepB("load")(std::string(1, low(o.sig[j])))(a[j])(r.next() >> 16)); }
		}
		for (size_t j = 0; j < 5; j++) b(a[j]);
		u64 im = r.next() >> 8;
		switch (r.below(6)) { case 0: im = r.below(5); break; case 1: im = (u32)-(int)r.below(5); break; case 2: im = 0x80000000u; break; case 3: im = 0x7fffffff; break; }
		b(im);
		if (o.sig[0] >= 'a') last[c][o.sig[0]] = a[0];
		p.add(b);
	}
}
World w("field", gen, exec, initModel);
}
