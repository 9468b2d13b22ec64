// Conversions between the library's objects and the reference model, and seeded values.
#pragma once
#include "bn.h"
#include "core.h"
#include "model.h"

namespace B {
using M::Z;

inline bool canon(const bn::Fp& x) { return M::fromLimbs(&x[0], 4) < M::C.p; }
inline bool canon(const bn::Fp2& x) { return canon(x.a_) && canon(x.b_); }
inline bool canon(const bn::Fp6& x) { return canon(x.a_) && canon(x.b_) && canon(x.c_); }
inline bool canon(const bn::Fp12& x) { return canon(x.a_) && canon(x.b_); }
inline Z raw(const bn::Fp& x) { return M::fromLimbs(&x[0], 4); }
inline Z raw(const bn::FpDbl& x) { return M::fromLimbs(x.const_ptr(), 8); }
inline Z val(const bn::Fp& x) { return M::fmul(raw(x), M::C.Rinv); }
inline M::F2 val(const bn::Fp2& x) { return M::F2(val(x.a_), val(x.b_)); }
inline M::F6 val(const bn::Fp6& x) { M::F6 r; r.c[0] = val(x.a_); r.c[1] = val(x.b_); r.c[2] = val(x.c_); return r; }
inline M::F12 val(const bn::Fp12& x)
{
	M::F12 r;
	r.c[0] = val(x.a_.a_); r.c[2] = val(x.a_.b_); r.c[4] = val(x.a_.c_);
	r.c[1] = val(x.b_.a_); r.c[3] = val(x.b_.b_); r.c[5] = val(x.b_.c_);
	return r;
}
inline void setRaw(bn::Fp& x, const Z& r) { M::toLimbs(&x[0], 4, r); }
inline void setRaw(bn::FpDbl& x, const Z& r) { M::toLimbs(x.ptr(), 8, r); }
inline void put(bn::Fp& x, const Z& v) { setRaw(x, M::fmul(v, M::C.R)); }
inline void put(bn::Fp2& x, const M::F2& v) { put(x.a_, v.a); put(x.b_, v.b); }
inline void put(bn::Fp6& x, const M::F6& v) { put(x.a_, v.c[0]); put(x.b_, v.c[1]); put(x.c_, v.c[2]); }
inline void put(bn::Fp12& x, const M::F12& v)
{
	put(x.a_.a_, v.c[0]); put(x.a_.b_, v.c[2]); put(x.a_.c_, v.c[4]);
	put(x.b_.a_, v.c[1]); put(x.b_.b_, v.c[3]); put(x.b_.c_, v.c[5]);
}
// a point in Jacobian coordinates with the given z
template<class E, class P, class F> void putJac(E& e, const P& m, const F& z)
{
	typedef M::Ops<F> O;
	if (m.inf) return;
	F z2 = O::mul(z, z);
	put(e.p[0], O::mul(m.x, z2));
	put(e.p[1], O::mul(m.y, O::mul(z2, z)));
	put(e.p[2], z);
}
inline M::P1 affine(const bn::Fp *p)
{
	Z z = val(p[2]);
	if (z == 0) return M::P1();
	Z i = M::finv(z), i2 = M::fmul(i, i);
	return M::P1(M::fmul(val(p[0]), i2), M::fmul(val(p[1]), M::fmul(i2, i)));
}
inline M::P2 affine(const bn::Fp2 *p)
{
	M::F2 z = val(p[2]);
	if (M::isZero(z)) return M::P2();
	M::F2 i = M::inv(z), i2 = i * i;
	return M::P2(val(p[0]) * i2, val(p[1]) * (i2 * i));
}
inline M::P1 affine(const bn::Ec1& e) { return affine(e.p); }
inline M::P2 affine(const bn::Ec2& e) { return affine(e.p); }
inline bool canon(const bn::Ec1& e) { return canon(e.p[0]) && canon(e.p[1]) && canon(e.p[2]); }
inline bool canon(const bn::Ec2& e) { return canon(e.p[0]) && canon(e.p[1]) && canon(e.p[2]); }

// mie::Vuint <-> Z. limbs beyond the size are left as they are
inline Z val(const mie::Vuint& x) { return M::fromLimbs(&x[0], x.size()); }
inline Z val(const mie::Vsint& x) { Z r = val(x.get()); return x.isNegative() ? Z(-r) : r; }
inline bool normal(const mie::Vuint& x) { return x.size() >= 1 && (x.size() == 1 || x[x.size() - 1] != 0); }
inline mie::Vuint vuint(const Z& x)
{
	uint64_t v[16];
	M::toLimbs(v, 16, x);
	size_t n = x == 0 ? 1 : (mpz_sizeinbase(x.get_mpz_t(), 2) + 63) / 64;
	return mie::Vuint(v, n);
}
inline mie::Vsint vsint(const Z& x)
{
	mie::Vsint r(vuint(abs(x)));
	if (sgn(x) < 0) mie::Vsint::neg(r, r);
	return r;
}
inline Z hexZ(const std::string& s) { Z z; if (z.set_str(s, 16)) return Z(0); return z; }
inline std::string zhex(const Z& z) { return z.get_str(16); }

// ---- generation (no library code)
Z genWords(Rng& r, int words);   // boundary biased integer of at most that many 64-bit words
Z genRawFp(Rng& r);              // boundary biased raw representation < p
void genRawFps(Rng& r, bn::Fp *x, int n); // coordinates of one object, sometimes all extreme
// raw representations of two elements chosen together: sum, difference, product, an intermediate value of the word by
// word Montgomery reduction of their product, or its result is a boundary biased pattern
void genPair(Rng& r, Z& x, Z& y);
void genPairs(Rng& r, bn::Fp *x, bn::Fp *y, int n);
Z genDouble(Rng& r); // double width value < PN, sometimes with such an intermediate value of its reduction
// points which fail the equation of the curve in one word or one component only
bool almostOn(Rng& r, M::P1& p);
bool almostOn(Rng& r, M::P2& p);
// a point of the curve with boundary biased Jacobian coordinates x and z; false if there was none
bool genJac(Rng& r, M::P1& p, Z& z);
bool genJac(Rng& r, M::P2& p, M::F2& z);
Z genScalar(Rng& r);             // 0, 1, small, r +- small, sparse, full, > r, negative

// ---- configuration of a run
struct Cfg { int b, mode, mulx; };
void genCfg(Rng& r, Plan& p);
Cfg cfgOf(const Plan& p);
void initModel(const Plan& p); // World::prepare
void initLib(const Cfg& c);
inline void initLib(const Plan& p) { initLib(cfgOf(p)); }
#ifdef BN_SUPPORT_SNARK
const bool SNARK = true;
#else
const bool SNARK = false;
#endif
}

// ---- arena: registers with guards, so that every write outside the declared destinations is seen
struct Arena {
	unsigned char *mem, *shadow;
	size_t size;
	struct Slot { size_t off, n; bool dirty; std::string name; };
	std::vector<Slot> slots;
	Arena();
	// gap derives from the seed, memory is prefilled with garbage
	void *add(const std::string& name, size_t n, u64 seed);
	void start(u64 seed);
	void commit(); // accept the current contents
	// everything outside of the given destinations must be unchanged
	void check(const std::string& what, const std::vector<void *>& dests);
};
