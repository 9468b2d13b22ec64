// C13: histories of calls of the classes exposed to Java, with element access, damaged strings and failing allocations.
#include "anydamage.h"
#include "bn254_if.hpp"
#include <string.h>
#include <functional>
#include <locale>
using M::Z; using M::F2; using M::F12; using M::P1; using M::P2;

namespace {
const int NM = 3, NF = 4, NG = 3, NK = 2, NP = 3, NQ = 2;
const int SF = NF + 2 * NG + 3 * NP + 6 * NQ, SG = NG + 3 * NQ; // places of Fp and Fp2
typedef ::Fp JF; typedef ::Fp2 JG; typedef ::Fp12 JK; typedef ::Ec1 JP; typedef ::Ec2 JQ; typedef ::Mpz JM;
struct Obj { char kind; void *mem; std::vector<Z> c; };
struct Mach {
	Arena ar;
	Obj m[NM], f[NF], g[NG], k[NK], p[NP], q[NQ];
	std::map<std::string, Z> log1, log2; // discrete logarithms of points met so far
	const Step *st;
	std::string what;
	int done;
} *m;
void bad(const std::string& cls, const std::string& s) { violate(cls, m->what + ": " + s); }
std::string esc(const std::string& s) { std::string e = escText(s); return e.size() > 600 ? e.substr(0, 600) + "..." : e; }
size_t coefs(char k) { switch (k) { case 'm': case 'f': return 1; case 'g': return 2; case 'k': return 12; case 'p': return 3; default: return 6; } }
JM& jm(int i) { return *(JM *)m->m[i].mem; }
JF& jf(int i) { return *(JF *)m->f[i].mem; }
JG& jg(int i) { return *(JG *)m->g[i].mem; }
JK& jk(int i) { return *(JK *)m->k[i].mem; }
JP& jp(int i) { return *(JP *)m->p[i].mem; }
JQ& jq(int i) { return *(JQ *)m->q[i].mem; }
// ---- places
struct Place { Obj *o; int at; };
Place fp(int s)
{
	Place r;
	if (s < NF) { r.o = &m->f[s]; r.at = 0; return r; }
	s -= NF;
	if (s < 2 * NG) { r.o = &m->g[s / 2]; r.at = s % 2; return r; }
	s -= 2 * NG;
	if (s < 3 * NP) { r.o = &m->p[s / 3]; r.at = s % 3; return r; }
	s -= 3 * NP;
	r.o = &m->q[s / 6];
	r.at = s % 6;
	return r;
}
Place fp2(int s)
{
	Place r;
	if (s < NG) { r.o = &m->g[s]; r.at = 0; return r; }
	s -= NG;
	r.o = &m->q[s / 3];
	r.at = s % 3 * 2;
	return r;
}
JG& part(JQ& q, int i) { return i == 0 ? q.getX() : i == 1 ? q.getY() : q.getZ(); }
JF& part(JP& p, int i) { return i == 0 ? p.getX() : i == 1 ? p.getY() : p.getZ(); }
JF& part(JG& g, int i) { return i ? g.getB() : g.getA(); }
JF& ref(const Place& s)
{
	switch (s.o->kind) {
	case 'f': return *(JF *)s.o->mem;
	case 'g': return part(*(JG *)s.o->mem, s.at);
	case 'p': return part(*(JP *)s.o->mem, s.at);
	default: return part(part(*(JQ *)s.o->mem, s.at / 2), s.at % 2);
	}
}
JG& ref2(const Place& s) { return s.o->kind == 'g' ? *(JG *)s.o->mem : part(*(JQ *)s.o->mem, s.at / 2); }
Z& mf(const Place& s) { return s.o->c[s.at]; }
F2 mg(const Place& s) { return F2(s.o->c[s.at], s.o->c[s.at + 1]); }
void setG(const Place& s, const F2& v) { s.o->c[s.at] = v.a; s.o->c[s.at + 1] = v.b; }
// ---- models of whole objects
P1 jac(const Z& x, const Z& y, const Z& z)
{
	if (z == 0) return P1();
	Z i = M::finv(z), i2 = M::fmul(i, i);
	return P1(M::fmul(x, i2), M::fmul(y, M::fmul(i2, i)));
}
P2 jac(const F2& x, const F2& y, const F2& z)
{
	if (M::isZero(z)) return P2();
	F2 i = M::inv(z), i2 = i * i;
	return P2(x * i2, y * (i2 * i));
}
P1 pt1(const Obj& o) { return jac(o.c[0], o.c[1], o.c[2]); }
P2 pt2(const Obj& o) { return jac(F2(o.c[0], o.c[1]), F2(o.c[2], o.c[3]), F2(o.c[4], o.c[5])); }
F12 m12(const Obj& o) { F12 r; for (int i = 0; i < 6; i++) r.c[i < 3 ? 2 * i : 2 * i - 5] = F2(o.c[2 * i], o.c[2 * i + 1]); return r; }
void set12(Obj& o, const F12& v) { for (int i = 0; i < 6; i++) { const F2& x = v.c[i < 3 ? 2 * i : 2 * i - 5]; o.c[2 * i] = x.a; o.c[2 * i + 1] = x.b; } }
std::string key(const P1& p) { return p.inf ? "O" : M::str(p.x, 16) + "_" + M::str(p.y, 16); }
std::string key(const P2& p) { return p.inf ? "O" : M::str(p.x.a, 16) + "," + M::str(p.x.b, 16) + "_" + M::str(p.y.a, 16) + "," + M::str(p.y.b, 16); }
// ---- memory
std::vector<Z> seen(const Obj& o, bool& canonical)
{
	std::vector<Z> c;
	canonical = true;
	if (o.kind == 'm') { mpz_class z; z = *(const mpz_class *)o.mem; c.push_back(z); return c; }
	const bn::Fp *x = (const bn::Fp *)o.mem;
	for (size_t i = 0; i < coefs(o.kind); i++) { if (!B::canon(x[i])) canonical = false; c.push_back(B::val(x[i])); }
	return c;
}
std::string show(const std::vector<Z>& c) { std::string s; for (size_t i = 0; i < c.size(); i++) s += (i ? "," : "") + c[i].get_str(16); return s; }
void others(Obj *d) { std::vector<void *> v; if (d) v.push_back(d->mem); m->ar.check(m->what, v); }
void exact(Obj& d)
{
	bool can;
	std::vector<Z> c = seen(d, can);
	if (c != d.c) bad("wrong-value", std::string(1, d.kind) + " is " + show(c) + " instead of " + show(d.c));
	if (!can) bad("not-canonical", std::string(1, d.kind) + " is not reduced");
	others(&d);
}
// any representation of the point
template<class P> void point(Obj& d, const P& want)
{
	bool can;
	std::vector<Z> c = seen(d, can);
	std::vector<Z> old = d.c;
	d.c = c;
	std::string got = d.kind == 'p' ? key(pt1(d)) : key(pt2(d));
	if (got != key(want)) bad("wrong-value", "the point is " + got + " instead of " + key(want));
	if (!can && !want.inf) bad("not-canonical", "a coordinate is not reduced");
	if (!can) { // unused coordinates
		for (size_t i = 0; i < c.size(); i++) B::put(((bn::Fp *)d.mem)[i], Z(0));
		for (size_t i = 0; i < c.size(); i++) d.c[i] = 0;
		m->ar.commit();
		return;
	}
	others(&d);
}
void learn(const P1& p, const Z& l) { m->log1[key(p)] = M::mdm(l, M::C.r); }
void learn(const P2& p, const Z& l) { m->log2[key(p)] = M::mdm(l, M::C.r); }
// ---- calls which may fail
// 0 done, 1 exception
int call(const std::function<void()>& f, long oom, bool& outOfMemory)
{
	outOfMemory = false;
	try {
		if (oom) alloc::failAt(oom); else alloc::fired = 0;
		f();
		alloc::off();
	} catch (std::exception& e) {
		alloc::off();
		outOfMemory = alloc::fired > 0;
		if (tracing()) fprintf(stderr, "  %s\n", e.what());
		if (alloc::fired) stat("fault.alloc-fail", alloc::fired);
		return 1;
	}
	if (alloc::fired) stat("fault.alloc-fail", alloc::fired);
	return 0;
}
// a string as the library's documentation describes
bool parseMpz(const std::string& s0, Z& z)
{
	std::string s;
	for (size_t i = 0; i < s0.size() && s0[i]; i++) if (!isspace((unsigned char)s0[i])) s += s0[i];
	bool neg = false;
	size_t i = 0;
	if (i < s.size() && s[i] == '-') { neg = true; i++; }
	int base = 10;
	if (i + 1 < s.size() && s[i] == '0') {
		if (s[i + 1] == 'x' || s[i + 1] == 'X') { base = 16; i += 2; }
		else if (s[i + 1] == 'b' || s[i + 1] == 'B') { base = 2; i += 2; }
		else { base = 8; i += 1; }
	}
	if (i >= s.size() && base == 10) return false;
	z = 0; // GMP takes a prefix without digits for zero
	for (; i < s.size(); i++) {
		int d = isdigit((unsigned char)s[i]) ? s[i] - '0' : s[i] >= 'a' && s[i] <= 'f' ? s[i] - 'a' + 10 : s[i] >= 'A' && s[i] <= 'F' ? s[i] - 'A' + 10 : 99;
		if (d >= base) return false;
		z = z * base + d;
	}
	if (neg) z = -z;
	return true;
}
// set from a string: d, place inside, how 0 good 1 damaged
void setString(Obj& d, int at, int kind, const std::function<void(const std::string&)>& f, Rng& r, int how, long oom)
{
	// kind: A::KF KG KK KP KQ, or -1 Mpz
	std::string s;
	A::Val v(kind < 0 ? A::KS : kind);
	if (kind < 0) {
		Z x = r.chance(1, 3) ? Z((int)r.below(100) - 50) : r.chance(1, 2) ? B::genScalar(r) : B::genWords(r, 6);
		s = r.chance(1, 2) ? x.get_str() : (sgn(x) < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16);
		v.c[0] = x;
	} else {
		v = A::textValue(kind, r);
		s = A::text(v, r, (int)r.below(32));
	}
	if (how == 1) { s = A::damage(s, r); stat("fault.damage"); }
	const bool must = how == 0 && (kind < 0 || (v.fits() && v.onCurve()));
	for (int attempt = 0; attempt < 2; attempt++) {
		bool mem;
		int e = call([&] { f(s); }, attempt ? 0 : oom, mem);
		if (e) {
			// the object is as it was
			bool can;
			std::vector<Z> c = seen(d, can);
			if (c != d.c) bad("object-changed", "rejecting " + esc(s) + " changed the object from " + show(d.c) + " to " + show(c));
			others(0);
			if (mem) continue;
			if (must) bad("rejected", "well-formed text was not accepted: " + esc(s));
			stat("rejected");
			break;
		}
		A::Val w(v.k);
		if (kind < 0) {
			if (!parseMpz(s, w.c[0])) bad("accepted-bad-text", esc(s) + " was accepted");
			d.c[0] = w.c[0];
			exact(d);
		} else if (kind == A::KF || kind == A::KG) {
			if (!A::denotes(s, w)) bad("accepted-bad-text", esc(s) + " was accepted");
			w = w.reduced();
			for (size_t i = 0; i < w.c.size(); i++) d.c[at + i] = w.c[i];
			exact(d);
		} else {
			// the text of a value, anything may follow
			A::Reader rd(s);
			std::string t = s;
			if (kind != A::KK) { // up to white space
				size_t b = t.find_first_not_of(" \t\n\v\f\r");
				t = b == std::string::npos ? "" : t.substr(b);
				t = t.substr(0, t.find_first_of(" \t\n\v\f\r"));
			}
			A::Reader r2(t);
			if (!r2.value(w) || (kind != A::KK && r2.i != t.size())) bad("accepted-bad-text", esc(s) + " was accepted");
			if (!w.onCurve()) bad("off-curve", esc(s) + " was accepted");
			w = w.reduced();
			if (kind == A::KK) { d.c = w.c; exact(d); }
			else if (kind == A::KP) point(d, A::p1(w));
			else point(d, A::p2(w));
		}
		stat("accepted");
		if (attempt == 0) break;
		break;
	}
	ev(esc(s));
	cover(strf("set %d %d %d", kind, how, (int)(oom != 0)) + (s.size() < 6 ? s : s.substr(0, 2) + s.substr(s.size() - 2)));
}
void textOf(const std::function<std::string()>& f, int kind, const A::Val& want, long oom)
{
	std::string s;
	for (int attempt = 0; attempt < 2; attempt++) {
		bool mem;
		int e = call([&] { s = f(); }, attempt ? 0 : oom, mem);
		others(0);
		if (e && mem) continue;
		if (e) bad("failed", "toString failed");
		break;
	}
	A::Val w(want.k);
	bool ok;
	if (kind < 0) ok = parseMpz(s, w.c[0]) && (s[0] == '0' ? s == "0" : true);
	else ok = A::denotes(s, w);
	if (!ok || w != want) bad("wrong-text", esc(s) + " for " + want.str());
	ev(esc(s));
}
// ---- operations
int idx(size_t j, int n) { return (int)(m->st->u(j) % (u64)n); }
void same(bool got, bool want, const char *name) { others(0); if (got != want) bad("wrong-value", std::string(name) + strf(" is %d", (int)got)); ev(name, got); }
template<class P> bool valid(const P& p) { return M::onCurve(p); }
template<class P> const Z *logOf(const std::map<std::string, Z>& t, const P& p)
{
	static const Z zero(0);
	if (p.inf) return &zero;
	std::map<std::string, Z>::const_iterator i = t.find(key(p));
	return i == t.end() ? 0 : &i->second;
}
// group operations of both groups
template<class J, class P> void group(const std::string& o, Obj *objs, int n, J& (*at)(int), P (*pt)(const Obj&), std::map<std::string, Z>& logs)
{
	const int d = idx(1, n), x = idx(2, n);
	Obj& D = objs[d];
	const P a = pt(D), b = pt(objs[x]);
	if (o == "eq") { same(at(d).equals(at(x)), key(a) == key(b), "equals"); return; }
	if (o == "zero") { same(at(d).isZero(), a.inf, "isZero"); return; }
	if (o == "valid") { same(at(d).isValid(), valid(a), "isValid"); return; }
	if (o == "clear") { at(d).clear(); point(D, P()); return; }
	if (o == "new") { // without arguments: the point at infinity, whatever the memory contained
		alignas(64) unsigned char b[sizeof(J)];
		memset(b, (int)(idx(3, 255) + 1), sizeof b);
		J *t = new (b) J();
		same(t->isZero(), true, "isZero of a new point");
		at(d) = *t;
		point(D, P());
		t->~J();
		return;
	}
	if (o == "copy") { J t(at(x)); at(d) = t; D.c = objs[x].c; exact(D); return; }
	if (!valid(a) || !valid(b)) return;
	const Z *la = logOf(logs, a), *lb = logOf(logs, b);
	P r;
	Z lr;
	if (o == "dbl") { at(d).dbl(); r = M::add(a, a); if (la) lr = 2 * *la; lb = la; }
	else if (o == "neg") { at(d).neg(); r = M::neg(a); if (la) lr = -*la; lb = la; }
	else if (o == "add") { at(d).add(at(x)); r = M::add(a, b); if (la && lb) lr = *la + *lb; }
	else if (o == "sub") { at(d).sub(at(x)); r = M::add(a, M::neg(b)); if (la && lb) lr = *la - *lb; }
	else if (o == "mul") {
		const int y = idx(3, NM);
		const Z e = m->m[y].c[0];
		at(d).mul(jm(y));
		r = M::mul(a, e);
		if (la) lr = *la * e;
		lb = la;
	} else return;
	point(D, r);
	if (la && lb) learn(r, lr);
}
template<class V> void sumOf(const std::string& o, V& r, const V& a, const V& b) { if (o == "add") r = a + b; else if (o == "sub") r = a - b; else r = a * b; }
void step(const std::string& kind, const std::string& o)
{
	const Step& st = *m->st;
	const u64 imm = st.u(4);
	const long oom = (long)st.u(5);
	Rng r(imm);
	if (kind == "m") {
		const int d = idx(1, NM), x = idx(2, NM);
		Obj& D = m->m[d];
		const Z b = m->m[x].c[0];
		if (o == "int") { if (imm & 1) jm(d).set((int)(imm >> 8)); else jm(d) = JM((int)(imm >> 8)); D.c[0] = (int)(imm >> 8); exact(D); }
		else if (o == "str") setString(D, 0, -1, [&](const std::string& s) { if (imm & 1) jm(d).set(s); else { JM t(s); jm(d) = t; } }, r, (int)st.u(3), oom);
		else if (o == "text") { A::Val v(A::KS); v.c[0] = b; textOf([&] { return jm(x).toString(); }, -1, v, oom); }
		else if (o == "eq") same(jm(d).equals(jm(x)), D.c[0] == b, "equals");
		else if (o == "cmp") { int c = jm(d).compareTo(jm(x)); int w = cmp(D.c[0], b); same((c > 0) - (c < 0) == (w > 0) - (w < 0), true, "compareTo"); }
		else if (o == "copy") { JM t(jm(x)); jm(d) = t; D.c[0] = b; exact(D); }
		else if (o == "r") same(GetParamR().equals(jm(d)), D.c[0] == M::C.r, "GetParamR");
		else {
			if (o == "mod" && b == 0) {
				bool mem;
				if (call([&] { jm(d).mod(jm(x)); }, 0, mem) == 0) bad("not-reported", "a division by zero was not reported");
				exact(D);
				return;
			}
			if (mpz_sizeinbase(D.c[0].get_mpz_t(), 2) + mpz_sizeinbase(b.get_mpz_t(), 2) > 1200) { jm(d).set(3); D.c[0] = 3; exact(D); return; }
			if (o == "add") { jm(d).add(jm(x)); D.c[0] += b; }
			else if (o == "sub") { jm(d).sub(jm(x)); D.c[0] -= b; }
			else if (o == "mul") { jm(d).mul(jm(x)); D.c[0] *= b; }
			else if (o == "mod") { jm(d).mod(jm(x)); D.c[0] %= b; }
			else return;
			exact(D);
		}
		return;
	}
	if (kind == "f") {
		const Place d = fp(idx(1, SF)), x = fp(idx(2, SF));
		JF &D = ref(d), &X = ref(x);
		const Z a = mf(d), b = mf(x);
		if (o == "int") { int v = (int)(imm >> 8); if (imm & 1) D.set(v); else D = JF(v); mf(d) = M::md(Z(v)); exact(*d.o); }
		else if (o == "str") setString(*d.o, d.at, A::KF, [&](const std::string& s) { if (imm & 1) D.set(s); else { JF t(s); D = t; } }, r, (int)st.u(3), oom);
		else if (o == "text") { A::Val v(A::KF); v.c[0] = b; textOf([&] { return X.toString(); }, A::KF, v, oom); }
		else if (o == "eq") same(D.equals(X), a == b, "equals");
		else if (o == "copy") { JF t(X); D = t; mf(d) = b; exact(*d.o); }
		else if (o == "power") {
			const int y = idx(3, NM);
			const Z e = m->m[y].c[0];
			bool mem;
			int ex = call([&] { D.power(jm(y)); }, 0, mem);
			if (ex != (sgn(e) < 0)) bad("wrong-value", strf("power: exception %d", ex));
			if (!ex) mf(d) = M::fpow(a, e);
			exact(*d.o);
		}
		else if (o == "add") { D.add(X); mf(d) = M::fadd(a, b); exact(*d.o); }
		else if (o == "sub") { D.sub(X); mf(d) = M::fsub(a, b); exact(*d.o); }
		else if (o == "mul") { D.mul(X); mf(d) = M::fmul(a, b); exact(*d.o); }
		return;
	}
	if (kind == "g") {
		const Place d = fp2(idx(1, SG)), x = fp2(idx(2, SG));
		JG &D = ref2(d), &X = ref2(x);
		const F2 a = mg(d), b = mg(x);
		if (o == "int") { int v = (int)(imm >> 8), w = (int)(imm >> 33); if (imm & 1) { D = JG(v, w); setG(d, F2(M::md(Z(v)), M::md(Z(w)))); } else { D = JG(v); setG(d, F2(M::md(Z(v)), Z(0))); } exact(*d.o); }
		else if (o == "fp") { const Place y = fp(idx(2, SF)), z = fp(idx(3, SF)); const F2 v(mf(y), mf(z)); D = JG(ref(y), ref(z)); setG(d, v); exact(*d.o); }
		else if (o == "str") setString(*d.o, d.at, A::KG, [&](const std::string& s) { D.set(s); }, r, (int)st.u(3), oom);
		else if (o == "strs") {
			A::Val v(A::KF), w(A::KF);
			v.c[0] = M::fmul(B::genRawFp(r), M::C.Rinv);
			w.c[0] = M::fmul(B::genRawFp(r), M::C.Rinv);
			const std::string s = A::text(v, r, (int)r.below(32)), t = A::text(w, r, (int)r.below(32));
			bool mem;
			int e = call([&] { D = JG(s, t); }, oom, mem);
			if (e && !mem) bad("rejected", esc(s) + " and " + esc(t));
			if (!e) setG(d, F2(v.c[0], w.c[0]));
			exact(*d.o);
		}
		else if (o == "text") { A::Val v(A::KG); v.c[0] = b.a; v.c[1] = b.b; textOf([&] { return X.toString(); }, A::KG, v, oom); }
		else if (o == "eq") same(D.equals(X), a.a == b.a && a.b == b.b, "equals");
		else if (o == "copy") { JG t(X); D = t; setG(d, b); exact(*d.o); }
		else if (o == "power") {
			const int y = idx(3, NM);
			const Z e = m->m[y].c[0];
			bool mem;
			int ex = call([&] { D.power(jm(y)); }, 0, mem);
			if (ex != (sgn(e) < 0)) bad("wrong-value", strf("power: exception %d", ex));
			if (!ex) setG(d, M::pow(a, e));
			exact(*d.o);
		}
		else {
			F2 t;
			if (o == "add") D.add(X); else if (o == "sub") D.sub(X); else if (o == "mul") D.mul(X); else return;
			sumOf(o, t, a, b);
			setG(d, t);
			exact(*d.o);
		}
		return;
	}
	if (kind == "k") {
		const int d = idx(1, NK), x = idx(2, NK);
		Obj& D = m->k[d];
		const F12 a = m12(D), b = m12(m->k[x]);
		if (o == "int") { int v = (int)(imm >> 8); jk(d) = JK(v); for (int i = 0; i < 12; i++) D.c[i] = 0; D.c[0] = M::md(Z(v)); exact(D); }
		else if (o == "str") setString(D, 0, A::KK, [&](const std::string& s) { jk(d).set(s); }, r, (int)st.u(3), oom);
		else if (o == "text") { A::Val v(A::KK); v.c = m->k[x].c; textOf([&] { return jk(x).toString(); }, A::KK, v, oom); }
		else if (o == "eq") same(jk(d).equals(jk(x)), D.c == m->k[x].c, "equals");
		else if (o == "copy") { JK t(jk(x)); jk(d) = t; D.c = m->k[x].c; exact(D); }
		else if (o == "power") {
			const int y = idx(3, NM);
			const Z e = m->m[y].c[0];
			bool mem;
			int ex = call([&] { jk(d).power(jm(y)); }, 0, mem);
			if (ex != (sgn(e) < 0)) bad("wrong-value", strf("power: exception %d", ex));
			if (!ex) set12(D, M::pow(a, e));
			exact(D);
		}
		else if (o == "pairing") {
			const int y = idx(2, NQ), z = idx(3, NP);
			const Z *lq = logOf(m->log2, pt2(m->q[y])), *lp = logOf(m->log1, pt1(m->p[z]));
			if (!lq || !lp) return;
			jk(d).pairing(jq(y), jp(z));
			set12(D, M::pow(M::baseGT(), M::mdm(*lq * *lp, M::C.r)));
			exact(D);
			stat("pairings");
		}
		else {
			F12 t;
			if (o == "add") jk(d).add(jk(x)); else if (o == "sub") jk(d).sub(jk(x)); else if (o == "mul") jk(d).mul(jk(x)); else return;
			sumOf(o, t, a, b);
			set12(D, t);
			exact(D);
		}
		return;
	}
	if (kind == "p" || kind == "q") {
		const bool one = kind == "p";
		Obj& D = one ? m->p[idx(1, NP)] : m->q[idx(1, NQ)];
		const int d = one ? idx(1, NP) : idx(1, NQ);
		if (o == "load") {
			Z l = M::mdm(B::genScalar(r), M::C.r);
			if (one) { P1 x = M::mul(M::g1(), l); learn(x, l); ((bn::Ec1 *)D.mem)->clear(); B::putJac(*(bn::Ec1 *)D.mem, x, r.chance(1, 2) ? Z(1) : Z((unsigned long)r.range(2, 1000))); }
			else { P2 x = M::mul(M::g2(), l); learn(x, l); ((bn::Ec2 *)D.mem)->clear(); B::putJac(*(bn::Ec2 *)D.mem, x, r.chance(1, 2) ? F2(1) : F2(Z((unsigned long)r.below(1000)), Z((unsigned long)r.range(1, 9)))); }
			bool can;
			D.c = seen(D, can);
			m->ar.commit();
			return;
		}
		if (o == "coords") { // the elements f0 f1 f2 or g0 g1 g2 become coordinates of a point, the scale is a coordinate of an object
			Z l = M::mdm(B::genScalar(r), M::C.r);
			if (one) {
				P1 x = M::mul(M::g1(), l);
				learn(x, l);
				Z z = imm & 1 ? Z(1) : mf(fp(idx(2, SF)));
				if (z == 0) return;
				JF *f[3] = { &jf(0), &jf(1), &jf(2) };
				Z v[3] = { M::fmul(x.x, M::fmul(z, z)), M::fmul(x.y, M::fmul(z, M::fmul(z, z))), z };
				for (int i = 0; i < 3; i++) { f[i]->set(v[i].get_str()); m->f[i].c[0] = v[i]; exact(m->f[i]); m->ar.commit(); }
			} else {
				P2 x = M::mul(M::g2(), l);
				learn(x, l);
				F2 z = imm & 1 ? F2(1) : mg(fp2(idx(2, SG)));
				if (M::isZero(z)) return;
				F2 v[3] = { x.x * (z * z), x.y * (z * z * z), z };
				for (int i = 0; i < 3; i++) { jg(i).set("[" + v[i].a.get_str() + "," + v[i].b.get_str() + "]"); m->g[i].c[0] = v[i].a; m->g[i].c[1] = v[i].b; exact(m->g[i]); m->ar.commit(); }
			}
			return;
		}
		if (o == "set2" || o == "set3") {
			// operands: three places
			const bool three = o == "set3";
			bool mem;
			int e;
			if (one) {
				const Place x = fp(idx(2, SF)), y = fp(idx(3, SF)), z = fp((int)(imm % SF));
				const Z zx = mf(x), zy = mf(y), zz = three ? mf(z) : Z(1);
				const P1 w = jac(zx, zy, zz);
				e = call([&] {
					if (imm >> 20 & 1) { if (three) jp(d).set(ref(x), ref(y), ref(z)); else jp(d).set(ref(x), ref(y)); }
					else if (three) jp(d) = JP(ref(x), ref(y), ref(z));
					else jp(d) = JP(ref(x), ref(y));
				}, 0, mem);
				if (e == (int)valid(w)) bad(e ? "rejected" : "off-curve", e ? "a point of the curve was rejected" : "a point which is not on the curve was accepted");
				if (!e) { D.c[0] = zx; D.c[1] = zy; D.c[2] = zz; }
			} else {
				const Place x = fp2(idx(2, SG)), y = fp2(idx(3, SG)), z = fp2((int)(imm % SG));
				const F2 zx = mg(x), zy = mg(y), zz = three ? mg(z) : F2(1);
				const P2 w = jac(zx, zy, zz);
				e = call([&] {
					if (imm >> 20 & 1) { if (three) jq(d).set(ref2(x), ref2(y), ref2(z)); else jq(d).set(ref2(x), ref2(y)); }
					else if (three) jq(d) = JQ(ref2(x), ref2(y), ref2(z));
					else jq(d) = JQ(ref2(x), ref2(y));
				}, 0, mem);
				if (e == (int)valid(w)) bad(e ? "rejected" : "off-curve", e ? "a point of the curve was rejected" : "a point which is not on the curve was accepted");
				if (!e) { D.c[0] = zx.a; D.c[1] = zx.b; D.c[2] = zy.a; D.c[3] = zy.b; D.c[4] = zz.a; D.c[5] = zz.b; }
			}
			if (e) { bool can; std::vector<Z> c = seen(D, can); if (!can) bad("not-canonical", "after a refused point"); D.c = c; }
			stat(e ? "points-refused" : "points-accepted");
			if (!e) { if (one) point(D, pt1(D)); else point(D, pt2(D)); }
			others(&D);
			return;
		}
		if (o == "scale") { // the same point by its elements
			if (one) {
				const Place s = fp(idx(2, NF));
				const Z z = mf(s);
				if (z == 0 || pt1(D).inf) return;
				JF t(ref(s));
				jp(d).getZ().mul(t);
				JF u(t);
				u.mul(t);
				jp(d).getX().mul(u);
				u.mul(t);
				jp(d).getY().mul(u);
				const P1 w = pt1(D);
				D.c[0] = M::fmul(D.c[0], M::fmul(z, z)); D.c[1] = M::fmul(D.c[1], M::fmul(z, M::fmul(z, z))); D.c[2] = M::fmul(D.c[2], z);
				exact(D);
				point(D, w);
			} else {
				const Place s = fp2(idx(2, NG));
				const F2 z = mg(s);
				if (M::isZero(z) || pt2(D).inf) return;
				const P2 w = pt2(D);
				JG t(ref2(s));
				jq(d).getZ().mul(t);
				JG u(t);
				u.mul(t);
				jq(d).getX().mul(u);
				u.mul(t);
				jq(d).getY().mul(u);
				point(D, w);
			}
			return;
		}
		if (o == "str") { setString(D, 0, one ? A::KP : A::KQ, [&](const std::string& s) { if (one) jp(d).set(s); else jq(d).set(s); }, r, (int)st.u(3), oom); return; }
		if (o == "text") {
			A::Val v = one ? A::of(pt1(D)) : A::of(pt2(D));
			textOf([&] { return one ? jp(d).toString() : jq(d).toString(); }, one ? A::KP : A::KQ, v, oom);
			return;
		}
		if (one) group<JP, P1>(o, m->p, NP, jp, pt1, m->log1);
		else group<JQ, P2>(o, m->q, NQ, jq, pt2, m->log2);
	}
}
void mk(Obj& o, char kind, int i, u64 lay)
{
	o.kind = kind;
	static const size_t sz[] = { sizeof(JM), sizeof(JF), sizeof(JG), sizeof(JK), sizeof(JP), sizeof(JQ) };
	o.mem = m->ar.add(strf("%c%d", kind, i), sz[strchr("mfgkpq", kind) - "mfgkpq"], lay * 31 + kind * 7 + i);
	o.c.assign(coefs(kind), Z(0));
}
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	m->done = 0;
	const u64 lay = p.hu("layout");
	for (int i = 0; i < NM; i++) mk(m->m[i], 'm', i, lay);
	for (int i = 0; i < NF; i++) mk(m->f[i], 'f', i, lay);
	for (int i = 0; i < NG; i++) mk(m->g[i], 'g', i, lay);
	for (int i = 0; i < NK; i++) mk(m->k[i], 'k', i, lay);
	for (int i = 0; i < NP; i++) mk(m->p[i], 'p', i, lay);
	for (int i = 0; i < NQ; i++) mk(m->q[i], 'q', i, lay);
	if (p.hu("system")) SystemInit(); else B::initLib(p);
	// constructors as Java calls them
	Rng r(p.hu("values"));
	for (int i = 0; i < NM; i++) { m->m[i].c[0] = r.chance(1, 2) ? Z((int)r.below(40) - 5) : B::genScalar(r); new (m->m[i].mem) JM(m->m[i].c[0].get_str()); }
	for (int i = 0; i < NF; i++) { int v = (int)r.below(7) - 3; m->f[i].c[0] = M::md(Z(v)); new (m->f[i].mem) JF(v); }
	for (int i = 0; i < NG; i++) { Z a = M::fmul(B::genRawFp(r), M::C.Rinv), b = M::fmul(B::genRawFp(r), M::C.Rinv); m->g[i].c[0] = a; m->g[i].c[1] = b; new (m->g[i].mem) JG(a.get_str(), "0x" + b.get_str(16)); }
	for (int i = 0; i < NK; i++) { int v = (int)r.below(5) - 2; m->k[i].c[0] = M::md(Z(v)); new (m->k[i].mem) JK(v); }
	for (int i = 0; i < NP; i++) new (m->p[i].mem) JP();
	for (int i = 0; i < NQ; i++) { new (m->q[i].mem) JQ(); jq(i).clear(); }
	m->what = "construction";
	m->ar.start(lay);
	for (int i = 0; i < NM; i++) exact(m->m[i]);
	for (int i = 0; i < NF; i++) exact(m->f[i]);
	for (int i = 0; i < NG; i++) exact(m->g[i]);
	for (int i = 0; i < NK; i++) exact(m->k[i]);
	for (int i = 0; i < NP; i++) exact(m->p[i]);
	for (int i = 0; i < NQ; i++) exact(m->q[i]);
	learn(M::g1(), Z(1));
	learn(M::g2(), Z(1));
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		m->st = &st;
		setStep(s);
		m->what = strf("step %d ", (int)s) + st.op();
		for (size_t j = 1; j < st.n(); j++) m->what += " " + st.s(j);
		if (st.op() == "garbage") { poisonBelow(st.u(1), 48 << 10); alloc::poison = (unsigned char)st.u(1); stat("fault.garbage"); continue; }
		if (st.op() == "locale") { std::locale::global(A::someLocale(st.u(1))); stat("fault.locale"); continue; }
		if (st.op() == "reinit") {
			B::Cfg c = B::cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			if (st.u(3)) SystemInit(); else B::initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		size_t dot = st.op().find('.');
		if (dot == std::string::npos) continue;
		step(st.op().substr(0, dot), st.op().substr(dot + 1));
		m->ar.commit();
		m->done++;
		stat("ops");
		cover(st.op() + strf(" %d %d", (int)(st.u(1) == st.u(2)), (int)(st.u(2) == st.u(3))));
	}
	for (int i = 0; i < NK; i++) evBytes("k", m->k[i].mem, sizeof(JK));
	for (int i = 0; i < NF; i++) evBytes("f", m->f[i].mem, sizeof(JF));
	if (m->done >= 3) nontrivial();
	if (m->done) sample(strf("%d calls, last: ", m->done) + m->what);
}
void gen(Rng& r, Plan& p, bool thorough)
{
	B::genCfg(r, p);
	p.set("system", r.chance(1, 2));
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	static const char *const all[] = {
		"m.int", "m.str", "m.text", "m.eq", "m.cmp", "m.copy", "m.r", "m.add", "m.sub", "m.mul", "m.mod",
		"f.int", "f.str", "f.text", "f.eq", "f.copy", "f.power", "f.add", "f.sub", "f.mul",
		"g.int", "g.fp", "g.str", "g.strs", "g.text", "g.eq", "g.copy", "g.power", "g.add", "g.sub", "g.mul",
		"k.int", "k.str", "k.text", "k.eq", "k.copy", "k.power", "k.pairing", "k.add", "k.sub", "k.mul",
		"p.load", "p.coords", "p.set2", "p.set3", "p.scale", "p.str", "p.text", "p.clear", "p.new", "p.eq", "p.zero", "p.valid", "p.copy", "p.dbl", "p.neg", "p.add", "p.sub", "p.mul",
		"q.load", "q.coords", "q.set2", "q.set3", "q.scale", "q.str", "q.text", "q.clear", "q.new", "q.eq", "q.zero", "q.valid", "q.copy", "q.dbl", "q.neg", "q.add", "q.sub", "q.mul" };
	const int nall = sizeof(all) / sizeof(*all);
	int len = (int)r.range(3, thorough ? 120 : 45);
	const int dmg = (int)r.below(8), om = (int)r.below(4), flt = (int)r.below(4), alias = (int)r.below(5);
	std::string kinds = "mfgkpq";
	if (r.chance(1, 2)) { std::string t; for (size_t i = 0; i < kinds.size(); i++) if (r.chance(1, 2)) t += kinds[i]; if (!t.empty()) kinds = t; }
	if (r.chance(1, 3)) { p.add(StepB("p.load")(r.below(NP))(0)(0)(r.next() >> 8)(0)); p.add(StepB("q.load")(r.below(NQ))(0)(0)(r.next() >> 8)(0)); }
	for (int i = 0; i < len; i++) {
		if (r.below(24) < (u64)flt) {
			switch (r.below(3)) {
			case 0: p.add(StepB("garbage")(r.below(1000))); break;
			case 1: p.add(StepB("locale")(r.below(20))); break;
			default: p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2))(r.below(2))); break;
			}
		}
		std::string o;
		do o = all[r.below(nall)]; while (kinds.find(o[0]) == std::string::npos);
		if ((o == "k.power" || o == "k.pairing") && r.chance(1, 2)) continue;
		u64 d = r.below(64), x = r.below(64), y = r.below(64), imm = r.next() >> 8;
		if (r.below(8) < (u64)alias) x = d;
		if (o == "p.set2" || o == "p.set3" || o == "q.set2" || o == "q.set3") {
			const bool one = o[0] == 'p';
			const u64 SFb = one ? SF : SG;
			u64 c = r.below(6);
			if (c < 4) { // coordinates that fit together, one of them maybe a coordinate of the point itself
				const u64 zz = r.below(SFb);
				const int nd = one ? NP : NQ;
				const u64 own = one ? NF + 2 * NG + 3 * (d % nd) : NG + 3 * (d % nd);
				const u64 zs = r.chance(1, 2) ? own + r.below(3) : zz;
				p.add(StepB(one ? "p.coords" : "q.coords")(d)(o[4] == '2' ? zz : zs)(0)((u64)((imm & ~1ULL) | (o[4] == '2' ? 1 : 0)))(0));
				x = 0;
				y = 1;
				imm = (imm / SFb) * SFb + (r.chance(1, 3) ? 2 : zs);
				if ((imm % SFb) != 2 && (imm % SFb) != zs) imm = 2;
			} else if (c == 4) { // of a point
				const int nd = one ? NP : NQ;
				const u64 own = (one ? NF + 2 * NG : NG) + 3 * r.below(nd);
				x = own;
				y = own + 1;
				imm = (imm / SFb) * SFb + own + 2;
			}
			// the place of z is imm modulo the number of places: keep the other bits
		}
		if (o == "p.scale" || o == "q.scale") x = r.below(o[0] == 'p' ? NF : NG);
		const bool str = o.find("str") != std::string::npos;
		if (str) y = r.below(8) < (u64)dmg ? 1 : 0;
		const bool mem = (str || o.find("text") != std::string::npos) && r.below(8) < (u64)om;
		p.add(StepB(o)(d)(x)(y)(imm)(mem ? (u64)r.range(1, 8) : 0));
	}
}
void prep(const Plan& p)
{
	B::initModel(p);
	M::baseGT();
}
World w("java", gen, exec, prep);
}
