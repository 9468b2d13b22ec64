// C14: histories of target group operations against generic arithmetic of the model.
#include "bridge.h"
#include "cyc_special.h"
#include <string.h>
#include <functional>
using namespace B;
using M::F2; using M::F6; using M::F12;
using bn::Fp; using bn::Fp2; using bn::Fp6; using bn::Fp12;
typedef bn::CompressT<Fp2> Compress;

namespace {
const int NX = 3, NC = 4; // any elements, elements of the cyclotomic subgroup
struct Mach {
	Arena ar;
	Fp12 *x[NX], *c[NC];
	F12 mx[NX], mc[NC];
	const Step *st;
	std::string what;
};
Mach *m;
int A(int i) { return (int)m->st->u(i + 1); }
u64 IMM() { return m->st->u(4); }
#define LX(i) (*m->x[A(i)])
#define LC(i) (*m->c[A(i)])
#define MX(i) (m->mx[A(i)])
#define MC(i) (m->mc[A(i)])
void bad(const std::string& s) { violate("wrong-value", m->what + ": " + s); }

// ---- values (model only, prepared before the fork)
struct Pool { std::vector<F12> cyc, pre, low; };
std::map<int, Pool> pools;
Pool& pool()
{
	int k = M::C.snark ? M::C.b : 0;
	Pool& p = pools[k];
	if (!p.cyc.empty()) return p;
	const Z &q = M::C.p;
	const Z phi = q * q * q * q - q * q + 1;
	// elements with a zero coefficient, now or after 55 or 62 squarings, or after the power by z
	for (int i = 0; i < 3; i++) {
		F12 s;
		for (int j = 0; j < 6; j++) {
			const char *const *v = M::C.snark ? cycSpecialSnark[i][j] : cycSpecialDefault[i][j];
			s.c[j] = F2(Z(v[0], 16), Z(v[1], 16));
		}
		p.cyc.push_back(s);
		static const int sh[] = { 1, 2, 55, 62 };
		Z inv2;
		for (int k = 0; k < 4; k++) {
			if (i && k != i + 1) continue;
			Z e = Z(1) << sh[k];
			mpz_invert(inv2.get_mpz_t(), e.get_mpz_t(), phi.get_mpz_t());
			p.cyc.push_back(M::pow(s, inv2));
		}
	}
	// elements whose image under the easy part is one of those
	{
		Z e = (q * q * q * q * q * q - 1) * (q * q + 1), d;
		if (mpz_invert(d.get_mpz_t(), e.get_mpz_t(), phi.get_mpz_t())) {
			for (size_t i = 0; i < p.cyc.size(); i += 2) {
				F12 t = M::pow(p.cyc[i], d);
				if (M::easyPart(t) == p.cyc[i]) p.pre.push_back(t);
			}
		}
	}
	// elements of small order
	F12 g = M::zero12();
	for (int i = 0; i < 6; i++) g.c[i] = F2(Z(17 * i + 3), Z(5 * i + 1));
	g = M::easyPart(g);
	if (!M::C.snark) {
		static const int sm[] = { 13, 3793, 29173 };
		for (int i = 0; i < 3; i++) p.low.push_back(M::pow(g, phi / sm[i]));
		p.low.push_back(M::pow(g, phi / 13 / 3793));
	}
	p.cyc.push_back(g);
	p.cyc.push_back(M::baseGT());
	return p;
}
F12 rndAny(Rng& r)
{
	F12 x;
	Fp f[12];
	genRawFps(r, f, 12);
	for (int i = 0; i < 6; i++) x.c[i] = F2(val(f[2 * i]), val(f[2 * i + 1]));
	switch (r.below(10)) {
	case 0: for (int i = 1; i < 6; i++) x.c[i] = F2(0); break;           // Fp2
	case 1: for (int i = 1; i < 6; i += 2) x.c[i] = F2(0); break;         // Fp6
	case 2: for (int i = 1; i < 6; i++) if (i != 3) x.c[i] = F2(0); break; // Fp4
	case 3: for (int i = 0; i < 6; i += 2) x.c[i] = F2(0); break;
	case 4: if (!pool().pre.empty()) x = pool().pre[r.below(pool().pre.size())]; break;
	}
	if (M::isZero(x)) x = M::one12();
	return x;
}
F12 rndCyc(Rng& r, const std::vector<F12>& known)
{
	Pool& p = pool();
	switch (r.below(10)) {
	case 0: return M::one12();
	case 1: if (!p.low.empty()) return r.pick(p.low); return M::one12();
	case 2: case 3: case 4: return r.pick(p.cyc);
	case 5: if (!known.empty()) return M::conj6(r.pick(known)); return r.pick(p.cyc);
	case 6: return r.pick(p.cyc) * r.pick(p.cyc);
	case 7: return M::frob(r.pick(p.cyc));
	default: return M::easyPart(rndAny(r));
	}
}
Z expo(Rng& r)
{
	switch (r.below(6)) {
	case 0: return Z((unsigned long)r.below(5));
	case 1: return M::C.r;
	case 2: return abs(M::C.z);
	case 3: return abs(genScalar(r));
	default: return Z((unsigned long)(r.next() >> r.below(64)));
	}
}
struct Op { const char *name, *sig; bool distinct; std::function<void()> run; };
std::vector<Op> ops;
std::map<std::string, int> idx;
struct Reg { Reg(const char *n, const char *s, bool d, std::function<void()> f) { Op o; o.name = n; o.sig = s; o.distinct = d; o.run = f; idx[n] = (int)ops.size(); ops.push_back(o); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// sig: x any element, c cyclotomic element, first = destination; upper case = only read. OPX: operands differ from the destination
#define OP(name, sig, ...) static Reg CAT(reg_, __COUNTER__)(name, sig, false, [] { __VA_ARGS__ });
#define OPX(name, sig, ...) static Reg CAT(reg_, __COUNTER__)(name, sig, true, [] { __VA_ARGS__ });

OP("Frobenius", "xx", F12 t = M::frobn(MX(1), 1); LX(1).Frobenius(LX(0)); MX(0) = t;)
OP("Frobenius2", "xx", F12 t = M::frobn(MX(1), 2); LX(1).Frobenius2(LX(0)); MX(0) = t;)
OP("Frobenius3", "xx", F12 t = M::frobn(MX(1), 3); LX(1).Frobenius3(LX(0)); MX(0) = t;)
OP("Frobenius.c", "cc", F12 t = M::frobn(MC(1), 1); LC(1).Frobenius(LC(0)); MC(0) = t;)
OP("Frobenius2.c", "cc", F12 t = M::frobn(MC(1), 2); LC(1).Frobenius2(LC(0)); MC(0) = t;)
OP("Frobenius3.c", "cc", F12 t = M::frobn(MC(1), 3); LC(1).Frobenius3(LC(0)); MC(0) = t;)
OP("sqru", "c", F12 t = MC(0) * MC(0); LC(0).sqru(); MC(0) = t;)
OP("sqru.to", "cc", F12 t = MC(1) * MC(1); LC(1).sqru(LC(0)); MC(0) = t;)
OP("sqru.run", "c", int n = (int)(IMM() % 70); F12 t = MC(0); for (int i = 0; i < n; i++) { t = t * t; LC(0).sqru(); } MC(0) = t;)
OP("square", "c", F12 t = MC(0) * MC(0); Fp12::square(LC(0)); MC(0) = t;)
OP("squareC", "c", F12 t = MC(0) * MC(0); Fp12::squareC(LC(0)); MC(0) = t;)
OP("mul", "ccc", F12 t = MC(1) * MC(2); Fp12::mul(LC(0), LC(1), LC(2)); MC(0) = t;)
OP("mul.any", "xxx", F12 t = MX(1) * MX(2); if (M::isZero(t)) return; Fp12::mul(LX(0), LX(1), LX(2)); MX(0) = t;)
OP("conj", "cc", F12 t = M::conj6(MC(1)); LC(0) = LC(1); Fp6::neg(LC(0).b_, LC(0).b_); MC(0) = t;)
OP("inverse", "c", F12 t = M::conj6(MC(0)); LC(0).inverse(); MC(0) = t;)
OP("inverse.any", "x", F12 t = M::inv(MX(0)); LX(0).inverse(); MX(0) = t;)
OP("copy", "cc", LC(0) = LC(1); MC(0) = MC(1);)
OP("copy.any", "xc", LX(0) = LC(1); MX(0) = MC(1);)
OP("final_exp", "x", F12 t = M::finalExp(MX(0)); LX(0).final_exp(); MX(0) = t;)
OP("final_exp.c", "cx", F12 t = M::finalExp(MX(1)); Fp12 u = LX(1); u.final_exp(); LC(0) = u; MC(0) = t;)
OP("final_exp.cyc", "c", F12 t = M::finalExp(MC(0)); LC(0).final_exp(); MC(0) = t;)
OP("final_exp.hom", "Xx", Fp12 u = LX(0); Fp12 v = LX(1); Fp12 w = u * v; if (w.isZero()) return; u.final_exp(); v.final_exp(); w.final_exp(); if (!(w == u * v)) bad("f(x) f(y) is not f(x y)"); if (!(mie::power(w, bn::Param::r) == Fp12(1))) bad("the order is not r");)
OPX("mapToCyclo", "cX", F12 t = M::easyPart(MX(1)); Fp12 u = LX(1); u.mapToCyclo(LC(0)); MC(0) = t;)
OPX("compressed", "cc", int n = (int)(IMM() % 66); F12 t = MC(1); for (int i = 0; i < n; i++) t = t * t; Compress z(LC(0), LC(1)); Compress::square_n(z, n); z.decompress(); MC(0) = t;)
OPX("compressedC", "cc", int n = (int)(IMM() % 66); F12 t = MC(1); for (int i = 0; i < n; i++) t = t * t; Compress z(LC(0), LC(1)); Compress::square_nC(z, n); z.decompress(); MC(0) = t;)
// the upper half of a register which holds an int argument is undefined
OPX("compressed.dirty", "cc", int n = (int)(IMM() % 66); F12 t = MC(1); for (int i = 0; i < n; i++) t = t * t; Compress z(LC(0), LC(1)); ((void (*)(Compress&, u64))Compress::square_n)(z, (u64)n | (IMM() << 32)); z.decompress(); MC(0) = t;)
OP("compressed.self", "c", int n = (int)(IMM() % 5); F12 t = MC(0); for (int i = 0; i < n; i++) t = t * t; Compress z(LC(0), LC(0)); Compress::square_n(z, n); z.decompress(); MC(0) = t;)
OPX("compressed.two", "ccc", int n = (int)(IMM() % 8); F12 t = MC(2); Fp12 u; Compress z(u, LC(2)); for (int i = 0; i < n; i++) { t = t * t; Compress::square_n(z, 1); } Compress y(LC(0), z); Compress::square_n(y, 3); y.decompress(); z.decompress(); if (!(val(u) == t)) bad("the first element"); for (int i = 0; i < 3; i++) t = t * t; MC(0) = t;)
#ifdef BN_SUPPORT_SNARK
OPX("pow_neg_t", "cc", F12 t = M::conj6(M::pow(MC(1), abs(M::C.z))); Fp12::pow_neg_t(LC(0), LC(1)); MC(0) = t;)
#else
OPX("fixed_power", "cc", F12 t = M::pow(MC(1), abs(M::C.z)); Compress::fixed_power(LC(0), LC(1)); MC(0) = t;)
#endif
OP("power", "cc", Rng r(IMM()); Z e = expo(r); F12 t = M::pow(MC(1), e); LC(0) = mie::power(LC(1), vuint(e)); MC(0) = t;)
OP("power.mpz", "cc", Rng r(IMM()); Z e = expo(r); F12 t = M::pow(MC(1), e); LC(0) = mie::power(LC(1), e); MC(0) = t;)
OP("power.size_t", "cc", size_t e = IMM() >> (IMM() % 60); F12 t = M::pow(MC(1), Z((unsigned long)e)); LC(0) = mie::power(LC(1), e); MC(0) = t;)
OP("eq", "CC", bool w = MC(0) == MC(1); if ((LC(0) == LC(1)) != w || (LC(0) != LC(1)) == w) bad("comparison"); if ((LC(0) == Fp12(1)) != (MC(0) == M::one12())) bad("comparison with 1");)

OP("new", "c", Rng r(IMM()); std::vector<F12> known; for (int i = 0; i < NC; i++) known.push_back(m->mc[i]); MC(0) = rndCyc(r, known); put(LC(0), MC(0));)
OP("new.any", "x", Rng r(IMM()); MX(0) = rndAny(r); put(LX(0), MX(0));)
OP("near", "xX", Rng r(IMM()); F12 v = MX(1); const int i = (int)r.below(6); Z& t = r.chance(1, 2) ? v.c[i].a : v.c[i].b; t = r.chance(1, 2) ? M::md(t + 1) : M::fmul(genRawFp(r), M::C.Rinv); if (M::isZero(v)) v = M::one12(); MX(0) = v; put(LX(0), v);)

char low(char c) { return c | 32; }
int lim(char c) { return low(c) == 'x' ? NX : NC; }
Fp12 *addr(char c, int i) { return low(c) == 'x' ? m->x[i] : m->c[i]; }
F12& model(char c, int i) { return low(c) == 'x' ? m->mx[i] : m->mc[i]; }

void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int i = 0; i < NX; i++) m->x[i] = (Fp12 *)m->ar.add(strf("x%d", i), sizeof(Fp12), lay * 31 + i);
	for (int i = 0; i < NC; i++) m->c[i] = (Fp12 *)m->ar.add(strf("c%d", i), sizeof(Fp12), lay * 37 + i);
	initLib(p);
	Rng vr(p.hu("values"));
	std::vector<F12> known;
	for (int i = 0; i < NX; i++) { m->mx[i] = rndAny(vr); put(*m->x[i], m->mx[i]); }
	for (int i = 0; i < NC; i++) { m->mc[i] = rndCyc(vr, known); known.push_back(m->mc[i]); put(*m->c[i], m->mc[i]); }
	m->ar.start(lay);
	int done = 0;
	for (size_t i = 0; i < p.steps.size(); i++) {
		const Step& st = p.steps[i];
		m->st = &st;
		setStep(i);
		if (st.op() == "reinit") {
			Cfg c = cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		if (st.op() == "garbage") {
			poisonBelow(st.u(1), 48 << 10);
			alloc::poison = (unsigned char)st.u(1);
			stat("fault.garbage");
			continue;
		}
		std::map<std::string, int>::iterator it = idx.find(st.op());
		if (it == idx.end()) continue;
		const Op& o = ops[it->second];
		const size_t n = strlen(o.sig);
		bool ok = true;
		std::string rel = o.name;
		for (size_t j = 0; j < n; j++) {
			if (A((int)j) >= lim(o.sig[j])) { ok = false; break; }
			const F12& v = model(o.sig[j], A((int)j));
			rel += v == M::one12() ? "1" : "";
			for (int k = 0; k < 6; k++) if (M::isZero(v.c[k])) rel += (char)('a' + k);
			for (size_t k = 0; k < j; k++) if (addr(o.sig[j], A((int)j)) == addr(o.sig[k], A((int)k))) { rel += strf("=%d", (int)k); if (o.distinct && k == 0) ok = false; }
			rel += ",";
		}
		if (!ok) continue;
		m->what = strf("step %d ", (int)i) + o.name + strf(" %d %d %d", A(0), A(1), A(2));
		cover(rel);
		o.run();
		std::vector<void *> d;
		Fp12 *a = addr(o.sig[0], A(0));
		if (o.sig[0] >= 'a') {
			d.push_back(a);
			if (!canon(*a)) violate("not-canonical", m->what + ": a coefficient is not reduced");
			if (val(*a) != model(o.sig[0], A(0))) bad("gave " + M::str(val(*a)) + " instead of " + M::str(model(o.sig[0], A(0))));
		}
		m->ar.check(m->what, d);
		evBytes(o.name, a, sizeof *a);
		done++;
		stat("ops");
	}
	if (done >= 2) nontrivial();
	if (done) sample(strf("%d operations, last: ", done) + m->what);
}
void prepare(const Plan& p)
{
	initModel(p);
	pool();
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	int nclients = (int)r.range(1, 4), len = (int)r.range(2, thorough ? 30 : 12);
	std::vector<int> use;
	int keep = (int)r.range(2, 10);
	for (size_t i = 0; i < ops.size(); i++) if (r.chance(keep, 10)) use.push_back((int)i);
	if (use.size() < 3) for (size_t i = 0; i < ops.size(); i++) use.push_back((int)i);
	bool chain = r.chance(1, 2);
	int alias = (int)r.below(3), faults = (int)r.below(4);
	std::vector<std::map<char, int> > last(nclients);
	for (int i = 0; i < len; i++) {
		int c = (int)r.below(nclients);
		if (faults && r.chance(1, 8)) {
			if (r.chance(1, 2)) p.add(StepB("garbage")(r.below(1000)));
			else p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2)));
		}
		const Op& o = ops[use[r.below(use.size())]];
		StepB b(o.name);
		const size_t n = strlen(o.sig);
		int a[3] = { 0, 0, 0 };
		for (size_t j = 0; j < n; j++) {
			char k = low(o.sig[j]);
			a[j] = (int)r.below(lim(k));
			if (chain && j > 0 && last[c].count(k) && r.chance(1, 2)) a[j] = last[c][k];
			if (j && low(o.sig[0]) == k && !o.distinct && r.chance(alias, 4)) a[j] = a[r.below(j)];
		}
		if (o.distinct) for (size_t j = 1; j < n; j++) if (low(o.sig[j]) == o.sig[0] && a[j] == a[0]) a[j] = (a[0] + 1) % lim(o.sig[j]);
		for (int j = 0; j < 3; j++) b(a[j]);
		b(r.chance(1, 5) ? r.below(5) : r.next() >> 8);
		if (o.sig[0] >= 'a') last[c][o.sig[0]] = a[0];
		p.add(b);
	}
}
World w("target", gen, exec, prepare);
}
