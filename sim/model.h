// Executable reference model: plain big integer mathematics with GMP. Shares no code with the library.
#pragma once
#include <gmpxx.h>
#include <string>
#include <vector>
#include <stdint.h>

namespace M {

typedef mpz_class Z;

struct F2 { Z a, b; F2() {} F2(const Z& a_, const Z& b_) : a(a_), b(b_) {} F2(int a_) : a(a_), b(0) {} };
struct F6 { F2 c[3]; };   // in v, v^3 = xi
struct F12 { F2 c[6]; };  // in w, w^6 = xi

struct Ctx {
	Z p, r, t, z, R, Rinv, Rinv2, PN, W; // PN = p * 2^256, W = 2^512
	int b;
	F2 xi, bxi;
	F2 gamma[6]; // xi^(i (p - 1) / 6)
	Z gx1, gy1;
	F2 gx2, gy2;
	Z hard; // hard part of the final exponent
	bool snark;
};
extern Ctx C;

inline Z md(const Z& x) { Z r; mpz_mod(r.get_mpz_t(), x.get_mpz_t(), C.p.get_mpz_t()); return r; }
inline Z mdm(const Z& x, const Z& m) { Z r; mpz_mod(r.get_mpz_t(), x.get_mpz_t(), m.get_mpz_t()); return r; }
inline Z fadd(const Z& x, const Z& y) { return md(x + y); }
inline Z fsub(const Z& x, const Z& y) { return md(x - y); }
inline Z fmul(const Z& x, const Z& y) { return md(x * y); }
inline Z fneg(const Z& x) { return md(-x); }
inline Z finv(const Z& x) { Z r; if (!mpz_invert(r.get_mpz_t(), x.get_mpz_t(), C.p.get_mpz_t())) return Z(0); return r; }
inline Z fpow(const Z& x, const Z& e) { Z r; mpz_powm(r.get_mpz_t(), x.get_mpz_t(), e.get_mpz_t(), C.p.get_mpz_t()); return r; }

inline bool operator==(const F2& x, const F2& y) { return x.a == y.a && x.b == y.b; }
inline bool operator!=(const F2& x, const F2& y) { return !(x == y); }
inline F2 operator+(const F2& x, const F2& y) { return F2(md(x.a + y.a), md(x.b + y.b)); }
inline F2 operator-(const F2& x, const F2& y) { return F2(md(x.a - y.a), md(x.b - y.b)); }
inline F2 operator-(const F2& x) { return F2(md(-x.a), md(-x.b)); }
inline F2 operator*(const F2& x, const F2& y) { return F2(md(x.a * y.a - x.b * y.b), md(x.a * y.b + x.b * y.a)); }
inline F2 operator*(const F2& x, const Z& y) { return F2(md(x.a * y), md(x.b * y)); }
inline F2 conj(const F2& x) { return F2(x.a, md(-x.b)); }
inline F2 inv(const F2& x) { Z d = finv(md(x.a * x.a + x.b * x.b)); return F2(fmul(x.a, d), fmul(md(-x.b), d)); }
inline bool isZero(const F2& x) { return x.a == 0 && x.b == 0; }
inline bool isZero(const Z& x) { return x == 0; }
inline F2 pow(const F2& x, const Z& e)
{
	F2 r(1);
	for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = r * r; if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x; }
	return r;
}

inline bool operator==(const F6& x, const F6& y) { return x.c[0] == y.c[0] && x.c[1] == y.c[1] && x.c[2] == y.c[2]; }
inline F6 operator+(const F6& x, const F6& y) { F6 r; for (int i = 0; i < 3; i++) r.c[i] = x.c[i] + y.c[i]; return r; }
inline F6 operator-(const F6& x, const F6& y) { F6 r; for (int i = 0; i < 3; i++) r.c[i] = x.c[i] - y.c[i]; return r; }
inline F6 operator-(const F6& x) { F6 r; for (int i = 0; i < 3; i++) r.c[i] = -x.c[i]; return r; }
inline F6 operator*(const F6& x, const F6& y)
{
	F2 t[5] = { F2(0), F2(0), F2(0), F2(0), F2(0) };
	for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) t[i + j] = t[i + j] + x.c[i] * y.c[j];
	F6 r;
	r.c[0] = t[0] + C.xi * t[3];
	r.c[1] = t[1] + C.xi * t[4];
	r.c[2] = t[2];
	return r;
}
inline F6 one6() { F6 r; r.c[0] = F2(1); r.c[1] = F2(0); r.c[2] = F2(0); return r; }

inline bool operator==(const F12& x, const F12& y) { for (int i = 0; i < 6; i++) if (x.c[i] != y.c[i]) return false; return true; }
inline bool operator!=(const F12& x, const F12& y) { return !(x == y); }
inline F12 operator+(const F12& x, const F12& y) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = x.c[i] + y.c[i]; return r; }
inline F12 operator-(const F12& x, const F12& y) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = x.c[i] - y.c[i]; return r; }
inline F12 operator-(const F12& x) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = -x.c[i]; return r; }
inline F12 operator*(const F12& x, const F12& y)
{
	Z ta[11], tb[11];
	for (int i = 0; i < 6; i++) {
		if (isZero(x.c[i])) continue;
		for (int j = 0; j < 6; j++) {
			if (isZero(y.c[j])) continue;
			ta[i + j] += x.c[i].a * y.c[j].a - x.c[i].b * y.c[j].b;
			tb[i + j] += x.c[i].a * y.c[j].b + x.c[i].b * y.c[j].a;
		}
	}
	F12 r;
	for (int i = 0; i < 6; i++) {
		F2 lo(md(ta[i]), md(tb[i]));
		if (i + 6 < 11) lo = lo + C.xi * F2(md(ta[i + 6]), md(tb[i + 6]));
		r.c[i] = lo;
	}
	return r;
}
inline F12 one12() { F12 r; for (int i = 0; i < 6; i++) r.c[i] = F2(i == 0); return r; }
inline F12 zero12() { F12 r; for (int i = 0; i < 6; i++) r.c[i] = F2(0); return r; }
inline F6 zero6() { F6 r; for (int i = 0; i < 3; i++) r.c[i] = F2(0); return r; }
inline bool isZero(const F12& x) { for (int i = 0; i < 6; i++) if (!isZero(x.c[i])) return false; return true; }
inline bool isZero(const F6& x) { for (int i = 0; i < 3; i++) if (!isZero(x.c[i])) return false; return true; }
// conjugation = p^6 power
inline F12 conj6(const F12& x) { F12 r = x; for (int i = 1; i < 6; i += 2) r.c[i] = -r.c[i]; return r; }
inline F12 frob(const F12& x) { F12 r; for (int i = 0; i < 6; i++) r.c[i] = conj(x.c[i]) * C.gamma[i]; return r; }
inline F12 frobn(F12 x, int n) { while (n--) x = frob(x); return x; }
F6 inv(const F6& x);
F12 inv(const F12& x);
inline F12 pow(const F12& x, const Z& e)
{
	if (sgn(e) < 0) return pow(inv(x), -e);
	F12 r = one12();
	for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = r * r; if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x; }
	return r;
}
inline F6 pow(const F6& x, const Z& e)
{
	F6 r = one6();
	for (long i = (long)mpz_sizeinbase(e.get_mpz_t(), 2) - 1; i >= 0; i--) { r = r * r; if (mpz_tstbit(e.get_mpz_t(), i)) r = r * x; }
	return r;
}
F12 easyPart(const F12& x);
F12 finalExp(const F12& x);

// ---- curves, affine
inline Z binop_mul(const Z& x, const Z& y) { return fmul(x, y); }
template<class T> struct Ops;
template<> struct Ops<Z> {
	static Z add(const Z& x, const Z& y) { return fadd(x, y); }
	static Z sub(const Z& x, const Z& y) { return fsub(x, y); }
	static Z mul(const Z& x, const Z& y) { return fmul(x, y); }
	static Z neg(const Z& x) { return fneg(x); }
	static Z inv(const Z& x) { return finv(x); }
	static Z b() { return md(Z(C.b)); }
	static Z from(int x) { return md(Z(x)); }
};
template<> struct Ops<F2> {
	static F2 add(const F2& x, const F2& y) { return x + y; }
	static F2 sub(const F2& x, const F2& y) { return x - y; }
	static F2 mul(const F2& x, const F2& y) { return x * y; }
	static F2 neg(const F2& x) { return -x; }
	static F2 inv(const F2& x) { return M::inv(x); }
	static F2 b() { return C.bxi; }
	static F2 from(int x) { return F2(md(Z(x)), Z(0)); }
};
template<class T> struct Pt {
	bool inf;
	T x, y;
	Pt() : inf(true) {}
	Pt(const T& x_, const T& y_) : inf(false), x(x_), y(y_) {}
	bool operator==(const Pt& o) const { return inf ? o.inf : (!o.inf && x == o.x && y == o.y); }
	bool operator!=(const Pt& o) const { return !(*this == o); }
};
typedef Pt<Z> P1;
typedef Pt<F2> P2;
template<class T> bool onCurve(const Pt<T>& p)
{
	typedef Ops<T> O;
	if (p.inf) return true;
	return O::mul(p.y, p.y) == O::add(O::mul(O::mul(p.x, p.x), p.x), O::b());
}
template<class T> Pt<T> neg(const Pt<T>& p) { Pt<T> r = p; if (!p.inf) r.y = Ops<T>::neg(p.y); return r; }
template<class T> Pt<T> add(const Pt<T>& p, const Pt<T>& q)
{
	typedef Ops<T> O;
	if (p.inf) return q;
	if (q.inf) return p;
	T l;
	if (p.x == q.x) {
		if (!(p.y == q.y) || isZero(p.y)) return Pt<T>();
		l = O::mul(O::mul(O::from(3), O::mul(p.x, p.x)), O::inv(O::add(p.y, p.y)));
	} else {
		l = O::mul(O::sub(q.y, p.y), O::inv(O::sub(q.x, p.x)));
	}
	T x = O::sub(O::sub(O::mul(l, l), p.x), q.x);
	return Pt<T>(x, O::sub(O::mul(l, O::sub(p.x, x)), p.y));
}
template<class T> Pt<T> mul(const Pt<T>& p, const Z& n)
{
	if (sgn(n) < 0) return neg(mul(p, Z(-n)));
	Pt<T> r;
	if (n == 0) return r;
	for (long i = (long)mpz_sizeinbase(n.get_mpz_t(), 2) - 1; i >= 0; i--) {
		r = add(r, r);
		if (mpz_tstbit(n.get_mpz_t(), i)) r = add(r, p);
	}
	return r;
}
P1 g1();
P2 g2();
F12 miller(const P2& q, const P1& p);
F12 pairing(const P2& q, const P1& p);
P2 frobTwist(const P2& q);
bool fsqrt(Z& y, const Z& x);
bool sqrt2(F2& y, const F2& x);
P1 randomPoint1(const Z& seed);
P2 randomPoint2(const Z& seed); // in the order r subgroup if mulCofactor

// ---- configuration
void init(bool snark, int b);
const F12& baseGT(); // e(g2, g1) by the model, computed once per curve

Z fromLimbs(const uint64_t *v, size_t n);
void toLimbs(uint64_t *v, size_t n, const Z& x);
std::string str(const Z& x, int base = 10);
std::string str(const F2& x);
std::string str(const F12& x);
}
