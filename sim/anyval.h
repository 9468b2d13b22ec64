// Values of every type which has a text form, independent of the library's conversions.
#pragma once
#include "bridge.h"
#include <new>

namespace A {
using M::Z;
enum Kind { KV, KS, KF, KG, KH, KK, KP, KQ, NKIND };
static const char kindName[] = "vsfghkpq";
inline int kindOf(char c) { for (int i = 0; i < NKIND; i++) if (kindName[i] == c) return i; return -1; }
inline int ncoef(int k) { static const int n[] = { 1, 1, 1, 2, 6, 12, 2, 4 }; return n[k]; }
inline size_t sizeOf(int k)
{
	switch (k) {
	case KV: return sizeof(mie::Vuint);
	case KS: return sizeof(mie::Vsint);
	case KF: return sizeof(bn::Fp);
	case KG: return sizeof(bn::Fp2);
	case KH: return sizeof(bn::Fp6);
	case KK: return sizeof(bn::Fp12);
	case KP: return sizeof(bn::Ec1);
	default: return sizeof(bn::Ec2);
	}
}
inline bool isPoint(int k) { return k == KP || k == KQ; }
inline bool isInt(int k) { return k == KV || k == KS; }
struct Val {
	int k;
	bool inf;
	std::vector<Z> c;
	Val(int k_ = KV) : k(k_), inf(false), c(ncoef(k_)) {}
	bool operator==(const Val& o) const { return k == o.k && inf == o.inf && (inf || c == o.c); }
	bool operator!=(const Val& o) const { return !(*this == o); }
	std::string str() const
	{
		std::string s = std::string(1, kindName[k]) + ":";
		if (inf) return s + "infinity";
		for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + c[i].get_str(16);
		return s;
	}
	// coordinates modulo p
	Val reduced() const { Val r = *this; if (!isInt(k)) for (size_t i = 0; i < c.size(); i++) r.c[i] = M::md(c[i]); return r; }
	bool onCurve() const
	{
		if (!isPoint(k) || inf) return true;
		if (k == KP) return M::onCurve(M::P1(M::md(c[0]), M::md(c[1])));
		return M::onCurve(M::P2(M::F2(M::md(c[0]), M::md(c[1])), M::F2(M::md(c[2]), M::md(c[3]))));
	}
	bool fits() const
	{
		for (size_t i = 0; i < c.size(); i++) if (mpz_sizeinbase(c[i].get_mpz_t(), 2) > MIE_ZM_VUINT_BIT_LEN || (isInt(k) ? false : c[i] >= M::C.p)) return false;
		return true;
	}
};
inline Val of(const M::P1& p) { Val v(KP); v.inf = p.inf; if (!p.inf) { v.c[0] = p.x; v.c[1] = p.y; } return v; }
inline Val of(const M::P2& p) { Val v(KQ); v.inf = p.inf; if (!p.inf) { v.c[0] = p.x.a; v.c[1] = p.x.b; v.c[2] = p.y.a; v.c[3] = p.y.b; } return v; }
inline M::P1 p1(const Val& v) { return v.inf ? M::P1() : M::P1(v.c[0], v.c[1]); }
inline M::P2 p2(const Val& v) { return v.inf ? M::P2() : M::P2(M::F2(v.c[0], v.c[1]), M::F2(v.c[2], v.c[3])); }
inline void flat(std::vector<Z>& c, size_t& i, const bn::Fp2& x) { c[i++] = B::val(x.a_); c[i++] = B::val(x.b_); }
inline Val get(int k, const void *p)
{
	Val v(k);
	size_t i = 0;
	switch (k) {
	case KV: v.c[0] = B::val(*(const mie::Vuint *)p); break;
	case KS: v.c[0] = B::val(*(const mie::Vsint *)p); break;
	case KF: v.c[0] = B::val(*(const bn::Fp *)p); break;
	case KG: flat(v.c, i, *(const bn::Fp2 *)p); break;
	case KH: { const bn::Fp6& x = *(const bn::Fp6 *)p; flat(v.c, i, x.a_); flat(v.c, i, x.b_); flat(v.c, i, x.c_); break; }
	case KK: { const bn::Fp12& x = *(const bn::Fp12 *)p; flat(v.c, i, x.a_.a_); flat(v.c, i, x.a_.b_); flat(v.c, i, x.a_.c_); flat(v.c, i, x.b_.a_); flat(v.c, i, x.b_.b_); flat(v.c, i, x.b_.c_); break; }
	case KP: return of(B::affine(*(const bn::Ec1 *)p));
	default: return of(B::affine(*(const bn::Ec2 *)p));
	}
	return v;
}
inline bool canon(int k, const void *p)
{
	switch (k) {
	case KV: return ((const mie::Vuint *)p)->size() <= MIE_ZM_VUINT_BIT_LEN / 64 && B::normal(*(const mie::Vuint *)p);
	case KS: return ((const mie::Vsint *)p)->size() <= MIE_ZM_VUINT_BIT_LEN / 64 && B::normal(((const mie::Vsint *)p)->get());
	case KF: return B::canon(*(const bn::Fp *)p);
	case KG: return B::canon(*(const bn::Fp2 *)p);
	case KH: return B::canon(*(const bn::Fp6 *)p);
	case KK: return B::canon(*(const bn::Fp12 *)p);
	case KP: { const bn::Ec1& e = *(const bn::Ec1 *)p; return B::canon(e) || (B::canon(e.p[2]) && B::val(e.p[2]) == 0); }
	default: { const bn::Ec2& e = *(const bn::Ec2 *)p; return B::canon(e) || (B::canon(e.p[2]) && M::isZero(B::val(e.p[2]))); }
	}
}
inline M::F2 f2(const Val& v, int i) { return M::F2(v.c[i], v.c[i + 1]); }
// p points to raw memory. points get a random representation
inline void construct(int k, void *p, const Val& v, Rng& r)
{
	switch (k) {
	case KV: new (p) mie::Vuint(B::vuint(v.c[0])); break;
	case KS: new (p) mie::Vsint(B::vsint(v.c[0])); break;
	case KF: B::put(*(bn::Fp *)p, v.c[0]); break;
	case KG: B::put(*(bn::Fp2 *)p, f2(v, 0)); break;
	case KH: { M::F6 x; for (int i = 0; i < 3; i++) x.c[i] = f2(v, 2 * i); B::put(*(bn::Fp6 *)p, x); break; }
	case KK: { M::F12 x; for (int i = 0; i < 6; i++) x.c[i < 3 ? 2 * i : 2 * i - 5] = f2(v, 2 * i); B::put(*(bn::Fp12 *)p, x); break; }
	case KP: {
		bn::Ec1& e = *(bn::Ec1 *)p;
		if (v.inf) { B::put(e.p[0], Z((unsigned long)r.below(5))); B::put(e.p[1], Z((unsigned long)r.below(5))); e.p[2].clear(); break; }
		Z z = r.chance(1, 2) ? Z(1) : M::md(Z((unsigned long)r.next()) * Z((unsigned long)r.next()) + 1);
		B::putJac(e, p1(v), z);
		break;
	}
	default: {
		bn::Ec2& e = *(bn::Ec2 *)p;
		if (v.inf) { B::put(e.p[0], M::F2((int)r.below(5))); B::put(e.p[1], M::F2((int)r.below(5))); e.p[2].clear(); break; }
		M::F2 z = r.chance(1, 2) ? M::F2(1) : M::F2(Z((unsigned long)(r.next() | 1)), Z((unsigned long)r.next()));
		B::putJac(e, p2(v), z);
		break;
	}
	}
}
inline Val random(int k, Rng& r)
{
	Val v(k);
	switch (k) {
	case KV: v.c[0] = r.chance(1, 6) ? Z((unsigned long)r.below(12)) : B::genWords(r, r.chance(1, 3) ? 9 : 5); break;
	case KS: v.c[0] = r.chance(1, 6) ? Z((unsigned long)r.below(12)) : B::genWords(r, r.chance(1, 3) ? 9 : 5); if (r.chance(1, 2)) v.c[0] = -v.c[0]; break;
	case KP: return r.chance(1, 6) ? (v.inf = true, v) : of(M::randomPoint1(Z((unsigned long)r.below(200))));
	case KQ: return r.chance(1, 6) ? (v.inf = true, v) : of(M::randomPoint2(Z((unsigned long)r.below(40))));
	default:
		for (size_t i = 0; i < v.c.size(); i++) { v.c[i] = M::fmul(B::genRawFp(r), M::C.Rinv); if (r.chance(1, 8)) v.c[i] = Z((unsigned long)r.below(3)); }
	}
	return v;
}

// ---- text in the documented notation, every allowed spelling
inline std::string numText(const Z& x, Rng& r, int style)
{
	std::string s;
	if (style & 1) {
		s = Z(abs(x)).get_str(16);
		if (style & 2) for (size_t i = 0; i < s.size(); i++) if (r.chance(1, 2)) s[i] = (char)toupper(s[i]);
	} else {
		s = Z(abs(x)).get_str(10);
	}
	if (style & 4) s = std::string(r.below(r.chance(1, 10) ? 400 : 12), '0') + s;
	return (sgn(x) < 0 ? "-" : "") + std::string(style & 1 ? "0x" : "") + s;
}
inline std::string blank(Rng& r, int style)
{
	static const char w[] = " \t\n\r\v\f";
	std::string s;
	if (style & 8) for (size_t n = r.below(4); n; n--) s += w[r.below(6)];
	return s;
}
inline std::string text2(const Val& v, int i, Rng& r, int st) { return "[" + blank(r, st) + numText(v.c[i], r, st) + blank(r, st) + "," + blank(r, st) + numText(v.c[i + 1], r, st) + blank(r, st) + "]"; }
inline std::string text6(const Val& v, int i, Rng& r, int st)
{
	return "[" + blank(r, st) + text2(v, i, r, st) + blank(r, st) + "," + blank(r, st) + text2(v, i + 2, r, st) + blank(r, st) + "," + blank(r, st) + text2(v, i + 4, r, st) + blank(r, st) + "]";
}
// style: 1 hex, 2 upper case digits, 4 leading zeros, 8 white space inside of brackets, 16 mixed
inline std::string text(const Val& v, Rng& r, int st)
{
	if (st & 16) st ^= (int)r.below(8);
	switch (v.k) {
	case KV: case KS: case KF: return numText(v.c[0], r, st);
	case KG: return text2(v, 0, r, st);
	case KH: return text6(v, 0, r, st);
	case KK: return "[" + blank(r, st) + text6(v, 0, r, st) + blank(r, st) + "," + blank(r, st) + text6(v, 6, r, st) + blank(r, st) + "]";
	case KP: if (v.inf) return "0"; return numText(v.c[0], r, st) + "_" + numText(v.c[1], r, st);
	default: if (v.inf) return "0"; return text2(v, 0, r, st & ~8) + "_" + text2(v, 2, r, st & ~8);
	}
}
// strict reader of the documented notation; white space is allowed between the parts
struct Reader {
	const std::string& s;
	size_t i;
	explicit Reader(const std::string& t) : s(t), i(0) {}
	void ws() { while (i < s.size() && (s[i] == ' ' || (s[i] >= 9 && s[i] <= 13))) i++; }
	bool ch(char c) { ws(); if (i < s.size() && s[i] == c) { i++; return true; } return false; }
	static bool hexd(char c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
	bool num(Z& z, bool sign)
	{
		ws();
		bool neg = false;
		if (sign && i < s.size() && s[i] == '-') { neg = true; i++; }
		size_t b = i;
		if (i + 2 < s.size() && s[i] == '0' && s[i + 1] == 'x' && hexd(s[i + 2])) {
			i += 2;
			b = i;
			while (i < s.size() && hexd(s[i])) i++;
			z.set_str(s.substr(b, i - b), 16);
		} else {
			while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++;
			if (i == b) return false;
			z.set_str(s.substr(b, i - b), 10);
		}
		if (neg) z = -z;
		return true;
	}
	bool two(Val& v, int k) { return ch('[') && num(v.c[k], false) && ch(',') && num(v.c[k + 1], false) && ch(']'); }
	bool six(Val& v, int k) { return ch('[') && two(v, k) && ch(',') && two(v, k + 2) && ch(',') && two(v, k + 4) && ch(']'); }
	bool value(Val& v)
	{
		switch (v.k) {
		case KV: case KF: return num(v.c[0], false);
		case KS: return num(v.c[0], true);
		case KG: return two(v, 0);
		case KH: return six(v, 0);
		case KK: return ch('[') && six(v, 0) && ch(',') && six(v, 6) && ch(']');
		default: break;
		}
		ws();
		if (i < s.size() && s[i] == '0' && (i + 1 == s.size() || (s[i + 1] != '_' && !hexd(s[i + 1]) && s[i + 1] != 'x'))) { i++; v.inf = true; return true; }
		if (v.k == KP) return num(v.c[0], false) && ch('_') && num(v.c[1], false);
		return two(v, 0) && ch('_') && two(v, 2);
	}
};
// true if all of s is the text of a value
inline bool denotes(const std::string& s, Val& v)
{
	Reader r(s);
	if (!r.value(v)) return false;
	r.ws();
	return r.i == s.size();
}
}
