#include "model.h"
#include <string.h>
#include <map>

namespace M {
Ctx C;

static Z zs(const char *s) { return Z(s, 10); }

void init(bool snark, int b)
{
	if (C.p != 0 && C.snark == snark && C.b == b) return;
	Z z = snark ? zs("4965661367192848881") : Z(-((Z(1) << 62) + (Z(1) << 55) + 1));
	C.snark = snark;
	C.b = b;
	C.z = z;
	C.p = 36 * z * z * z * z + 36 * z * z * z + 24 * z * z + 6 * z + 1;
	C.r = 36 * z * z * z * z + 36 * z * z * z + 18 * z * z + 6 * z + 1;
	C.t = 6 * z * z + 1;
	C.R = Z(1) << 256;
	C.W = Z(1) << 512;
	C.PN = C.p << 256;
	C.Rinv = finv(md(C.R));
	C.Rinv2 = fmul(C.Rinv, C.Rinv);
	C.xi = F2(snark ? Z(9) : Z(1), Z(1));
	C.bxi = inv(C.xi) * md(Z(b));
	F2 g = pow(C.xi, (C.p - 1) / 6);
	C.gamma[0] = F2(1);
	for (int i = 1; i < 6; i++) C.gamma[i] = C.gamma[i - 1] * g;
	const Z& p = C.p;
	C.hard = p * p * p * (12 * z * z * z + 6 * z * z + 4 * z - 1) + p * p * (12 * z * z * z + 6 * z * z + 6 * z) + p * (12 * z * z * z + 6 * z * z + 4 * z) + (12 * z * z * z + 12 * z * z + 6 * z + 1);
	if (!snark) {
		C.gx1 = md(Z(-1));
		C.gy1 = 1;
		C.gx2 = F2(zs("12723517038133731887338407189719511622662176727675373276651903807414909099441"), zs("4168783608814932154536427934509895782246573715297911553964171371032945126671"));
		C.gy2 = F2(zs("13891744915211034074451795021214165905772212241412891944830863846330766296736"), zs("7937318970632701341203597196594272556916396164729705624521405069090520231616"));
	} else if (b == 3) {
		C.gx1 = 1;
		C.gy1 = 2;
		C.gx2 = F2(zs("15267802884793550383558706039165621050290089775961208824303765753922461897946"), zs("9034493566019742339402378670461897774509967669562610788113215988055021632533"));
		C.gy2 = F2(zs("644888581738283025171396578091639672120333224302184904896215738366765861164"), zs("20532875081203448695448744255224543661959516361327385779878476709582931298750"));
	} else {
		C.gx1 = md(Z(-1));
		C.gy1 = 9;
		C.gx2 = F2(zs("7281644703356799059368313064438243279269372005747477888712173236228325795991"), zs("15160700668152503952980485502602536850541312794041965342451842375663084147486"));
		C.gy2 = F2(zs("13523979532236795535820810482891703536907572704519492618036353386190612673074"), zs("15929067770616689398844794432758732907995965312283969374632681891490787470887"));
	}
}
P1 g1() { return P1(C.gx1, C.gy1); }
P2 g2() { return P2(C.gx2, C.gy2); }

// inverse in F6: solve by the adjugate of the multiplication matrix
F6 inv(const F6& x)
{
	const F2 &a = x.c[0], &b = x.c[1], &c = x.c[2];
	F2 A = a * a - C.xi * (b * c);
	F2 B = C.xi * (c * c) - a * b;
	F2 D = b * b - a * c;
	F2 n = inv(a * A + C.xi * (c * B + b * D));
	F6 r;
	r.c[0] = A * n;
	r.c[1] = B * n;
	r.c[2] = D * n;
	return r;
}
F12 inv(const F12& x)
{
	// 1/x = conj(x) / N, N = x conj(x) in F6 (even powers of w)
	F12 cj = conj6(x), n = x * cj;
	F6 m;
	for (int i = 0; i < 3; i++) m.c[i] = n.c[2 * i];
	m = inv(m);
	F12 e;
	for (int i = 0; i < 6; i++) e.c[i] = (i & 1) ? F2(0) : m.c[i / 2];
	return cj * e;
}
F12 easyPart(const F12& x)
{
	F12 f = conj6(x) * inv(x);
	return frobn(f, 2) * f;
}
F12 finalExp(const F12& x)
{
	// x^((p^6-1)(p^2+1) * hard); hard = sum c_i p^i
	F12 f = easyPart(x);
	const Z& z = C.z;
	Z c3 = 12 * z * z * z + 6 * z * z + 4 * z - 1, c2 = 12 * z * z * z + 6 * z * z + 6 * z, c1 = 12 * z * z * z + 6 * z * z + 4 * z, c0 = 12 * z * z * z + 12 * z * z + 6 * z + 1;
	// f is unitary: negative powers by conjugation. simultaneous exponentiation
	F12 b[4] = { f, frobn(f, 1), frobn(f, 2), frobn(f, 3) };
	Z e[4] = { c0, c1, c2, c3 };
	size_t n = 0;
	for (int i = 0; i < 4; i++) {
		if (sgn(e[i]) < 0) { e[i] = -e[i]; b[i] = conj6(b[i]); }
		size_t l = mpz_sizeinbase(e[i].get_mpz_t(), 2);
		if (l > n) n = l;
	}
	F12 tbl[16];
	tbl[0] = one12();
	for (int i = 1; i < 16; i++) {
		int k = i & -i, j = k == 1 ? 0 : k == 2 ? 1 : k == 4 ? 2 : 3;
		tbl[i] = tbl[i ^ k] * b[j];
	}
	F12 r = one12();
	for (long i = (long)n - 1; i >= 0; i--) {
		r = r * r;
		int k = 0;
		for (int j = 0; j < 4; j++) k |= mpz_tstbit(e[j].get_mpz_t(), i) << j;
		if (k) r = r * tbl[k];
	}
	return r;
}
// w^-1 style untwist: (x, y) on the twist -> (x w^2, y w^3)
static F12 lineAt(const P2& t, const F2& l, const P1& p)
{
	// yp - y_T w^3 - l w (xp - x_T w^2)
	F12 r = zero12();
	r.c[0] = F2(p.y, Z(0));
	r.c[1] = -(l * p.x);
	r.c[3] = l * t.x - t.y;
	return r;
}
static F2 slope(const P2& a, const P2& b)
{
	if (a == b) return (a.x * a.x) * Z(3) * inv(a.y + a.y);
	return (b.y - a.y) * inv(b.x - a.x);
}
P2 frobTwist(const P2& q)
{
	if (q.inf) return q;
	return P2(conj(q.x) * C.gamma[2], conj(q.y) * C.gamma[3]);
}
F12 miller(const P2& q, const P1& p)
{
	if (q.inf || p.inf) return one12();
	Z n = 6 * C.z + 2;
	bool ng = sgn(n) < 0;
	if (ng) n = -n;
	F12 f = one12();
	P2 t = q;
	for (long i = (long)mpz_sizeinbase(n.get_mpz_t(), 2) - 2; i >= 0; i--) {
		f = f * f * lineAt(t, slope(t, t), p);
		t = add(t, t);
		if (mpz_tstbit(n.get_mpz_t(), i)) {
			f = f * lineAt(t, slope(t, q), p);
			t = add(t, q);
		}
	}
	if (ng) {
		f = conj6(f);
		t = neg(t);
	}
	P2 q1 = frobTwist(q), q2 = neg(frobTwist(q1));
	f = f * lineAt(t, slope(t, q1), p);
	t = add(t, q1);
	f = f * lineAt(t, slope(t, q2), p);
	return f;
}
F12 pairing(const P2& q, const P1& p)
{
	if (q.inf || p.inf) return one12();
	return finalExp(miller(q, p));
}
const F12& baseGT()
{
	static std::map<std::string, F12> m;
	std::string k = (C.snark ? "s" : "d") + std::to_string(C.b);
	std::map<std::string, F12>::iterator i = m.find(k);
	if (i != m.end()) return i->second;
	return m[k] = pairing(g2(), g1());
}
bool fsqrt(Z& y, const Z& x)
{
	y = fpow(x, (C.p + 1) / 4);
	return fmul(y, y) == md(x);
}
bool sqrt2(F2& y, const F2& x)
{
	// x = a + b i, p = 3 mod 4
	if (x.b == 0) {
		Z s;
		if (fsqrt(s, x.a)) { y = F2(s, Z(0)); return true; }
		if (fsqrt(s, fneg(x.a))) { y = F2(Z(0), s); return true; }
		return false;
	}
	Z n;
	if (!fsqrt(n, md(x.a * x.a + x.b * x.b))) return false;
	Z half = finv(Z(2));
	for (int k = 0; k < 2; k++) {
		Z d = fmul(k ? fsub(x.a, n) : fadd(x.a, n), half), s;
		if (fsqrt(s, d) && s != 0) {
			F2 c(s, fmul(x.b, finv(fadd(s, s))));
			if (c * c == F2(md(x.a), md(x.b))) { y = c; return true; }
		}
	}
	return false;
}
P1 randomPoint1(const Z& seed)
{
	Z x = md(seed), y;
	for (;;) {
		if (fsqrt(y, md(x * x * x + C.b))) return P1(x, y);
		x = md(x + 1);
	}
}
P2 randomPoint2(const Z& seed)
{
	F2 x(md(seed), md(seed * 7 + 3)), y;
	for (;;) {
		if (sqrt2(y, x * x * x + C.bxi)) return P2(x, y);
		x.a = md(x.a + 1);
	}
}
Z fromLimbs(const uint64_t *v, size_t n)
{
	Z r;
	mpz_import(r.get_mpz_t(), n, -1, 8, 0, 0, v);
	return r;
}
void toLimbs(uint64_t *v, size_t n, const Z& x)
{
	memset(v, 0, n * 8);
	size_t c = (mpz_sizeinbase(x.get_mpz_t(), 2) + 63) / 64;
	if (x == 0 || c > n) return;
	mpz_export(v, &c, -1, 8, 0, 0, x.get_mpz_t());
}
std::string str(const Z& x, int base)
{
	if (base == 16) return (sgn(x) < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16);
	return x.get_str(10);
}
std::string str(const F2& x) { return "[" + str(x.a) + "," + str(x.b) + "]"; }
std::string str(const F12& x)
{
	std::string r = "[";
	for (int i = 0; i < 6; i++) r += (i ? "," : "") + str(x.c[i]);
	return r + "]";
}
}
