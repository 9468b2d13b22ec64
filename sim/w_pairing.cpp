// C10: histories of pairing computations on all routes by interleaved clients against the model.
#include "fixedbase.h"
#include <string.h>
#include <functional>
using namespace B;
using M::F2; using M::F12; using M::P1; using M::P2;
using bn::Fp; using bn::Fp2; using bn::Fp6; using bn::Fp12; using bn::Ec1; using bn::Ec2;

namespace {
const int NP = 3, NQ = 3, NT = 2, NK = 3;
typedef std::vector<Fp6> Table;
struct MP { Z a; P1 p; };          // p = a G1
struct MQ { Z b; P2 q; };
struct MT { bool set; int what; Z b; P2 q; };
struct Mach {
	Arena ar;
	Ec1 *p[NP];
	Ec2 *q[NQ];
	Fp12 *k[NK];
	Table *t[NT];
	Fp2 *tq[NT]; // normalized point of the table
	MP mp[NP];
	MQ mq[NQ];
	MT mt[NT];
	Z mk[NK]; // logarithm of the value
	const Step *st;
	std::string what;
};
Mach *m;
int A(int i) { return (int)m->st->u(i + 1); }
u64 IMM() { return m->st->u(6); }
void bad(const std::string& s) { violate("wrong-value", m->what + ": " + s); }

void putP(Ec1& e, const P1& p, Rng& r)
{
	if (p.inf) {
		e.clear();
		if (r.chance(1, 2)) { setRaw(e.p[0], genRawFp(r)); setRaw(e.p[1], genRawFp(r)); }
		return;
	}
	Z z = M::fmul(genRawFp(r), M::C.Rinv);
	if (z == 0 || r.chance(1, 3)) z = 1;
	putJac(e, p, z);
}
void putQ(Ec2& e, const P2& q, Rng& r)
{
	if (q.inf) {
		e.clear();
		if (r.chance(1, 2)) { setRaw(e.p[0].a_, genRawFp(r)); setRaw(e.p[1].b_, genRawFp(r)); }
		return;
	}
	F2 z(M::fmul(genRawFp(r), M::C.Rinv), r.chance(1, 3) ? Z(0) : M::fmul(genRawFp(r), M::C.Rinv));
	if (M::isZero(z) || r.chance(1, 3)) z = F2(1);
	putJac(e, q, z);
}
void affineOf(Fp *o, const P1& p) { put(o[0], p.x); put(o[1], p.y); }
void affineOf(Fp2 *o, const P2& q) { put(o[0], q.x); put(o[1], q.y); }
void setK(int i, const Z& e) { m->mk[i] = M::mdm(e, M::C.r); }
Z scal(u64 imm) { Rng r(imm); Z z = genScalar(r); return r.chance(1, 3) ? Z(-z) : z; }
// value of a pairing which is not a known power of the base
struct Op { const char *name, *sig; std::function<void()> run; };
std::vector<Op> ops;
std::map<std::string, int> idx;
struct Reg { Reg(const char *n, const char *s, std::function<void()> f) { Op o; o.name = n; o.sig = s; o.run = f; idx[n] = (int)ops.size(); ops.push_back(o); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define OP(name, sig, ...) static Reg CAT(reg_, __COUNTER__)(name, sig, [] { __VA_ARGS__ });
#define K(i) (*m->k[A(i)])
#define P(i) (*m->p[A(i)])
#define Q(i) (*m->q[A(i)])
#define T(i) (*m->t[A(i)])
#define LA(i) (m->mp[A(i)])
#define LB(i) (m->mq[A(i)])
#define LT(i) (m->mt[A(i)])

// k = pairing of Q and P
OP("pair.affine", "kqp", if (LB(1).q.inf || LA(2).p.inf) return; Fp2 q[2]; Fp p[2]; affineOf(q, LB(1).q); affineOf(p, LA(2).p); bn::opt_atePairing<Fp>(K(0), q, p); setK(A(0), LB(1).b * LA(2).a); if (!(val(q[0]) == LB(1).q.x) || !(val(q[1]) == LB(1).q.y) || val(p[0]) != LA(2).p.x || val(p[1]) != LA(2).p.y) bad("changed an argument");)
OP("pair.jac", "kqp", bn::opt_atePairingJac<Fp>(K(0), Q(1).p, P(2).p); setK(A(0), LB(1).b * LA(2).a);)
OP("pair.ec", "kqp", bn::opt_atePairing(K(0), Q(1), P(2)); setK(A(0), LB(1).b * LA(2).a);)
OP("pair.ec.const", "kqp", const Ec2& q = Q(1); const Ec1& p = P(2); bn::opt_atePairing(K(0), q, p); setK(A(0), LB(1).b * LA(2).a);)
OP("pair.neg", "kqp", Ec1 p; Ec1::neg(p, P(2)); bn::opt_atePairing(K(0), Q(1), p); setK(A(0), -(LB(1).b * LA(2).a));)
OP("pair.double", "kqp", Ec2 q; Ec2::dbl(q, Q(1)); bn::opt_atePairing(K(0), q, P(2)); setK(A(0), 2 * LB(1).b * LA(2).a);)
OP("pair.sum", "kqpp", Ec1 s = P(2) + P(3); bn::opt_atePairing(K(0), Q(1), s); setK(A(0), LB(1).b * (LA(2).a + LA(3).a));)
// precomputed tables
OP("table.make", "tq", if (LB(1).q.inf) return; bn::components::precomputeG2(T(0), m->tq[A(0)], Q(1).p); LT(0).set = true; LT(0).b = LB(1).b; LT(0).q = LB(1).q; if (!(val(m->tq[A(0)][0]) == LB(1).q.x) || !(val(m->tq[A(0)][1]) == LB(1).q.y) || !(val(m->tq[A(0)][2]) == F2(1))) bad("the normalized point");)
OP("table.make.self", "tq", if (LB(1).q.inf) return; for (int i = 0; i < 3; i++) m->tq[A(0)][i] = Q(1).p[i]; bn::components::precomputeG2(T(0), m->tq[A(0)], m->tq[A(0)]); LT(0).set = true; LT(0).b = LB(1).b; LT(0).q = LB(1).q;)
OP("table.remake", "t", if (!LT(0).set) return; Fp2 q[3]; bn::components::precomputeG2(T(0), q, m->tq[A(0)]);)
OP("table.copy", "tt", Table c(T(1)); T(0) = c; LT(0) = LT(1); if (A(0) != A(1)) for (int i = 0; i < 3; i++) m->tq[A(0)][i] = m->tq[A(1)][i];)
OP("table.use", "ktp", if (!LT(1).set || LA(2).p.inf) return; Fp p[2]; affineOf(p, LA(2).p); bn::components::millerLoop(K(0), T(1), p); K(0).final_exp(); setK(A(0), LT(1).b * LA(2).a); if (val(p[0]) != LA(2).p.x || val(p[1]) != LA(2).p.y) bad("changed an argument");)
OP("table.use.ec", "ktp", if (!LT(1).set || LA(2).p.inf) return; Ec1 p(P(2)); p.normalize(); bn::components::millerLoop(K(0), T(1), p.p); K(0).final_exp(); setK(A(0), LT(1).b * LA(2).a);)
OP("table.use2", "ktptp", if (!LT(1).set || !LT(3).set || LA(2).p.inf || LA(4).p.inf) return; Fp p[2]; Fp q[2]; affineOf(p, LA(2).p); affineOf(q, LA(4).p); bn::components::millerLoop2(K(0), T(1), p, T(3), q); K(0).final_exp(); setK(A(0), LT(1).b * LA(2).a + LT(3).b * LA(4).a);)
OP("table.use2.same", "ktp", if (!LT(1).set || LA(2).p.inf) return; Fp p[2]; affineOf(p, LA(2).p); bn::components::millerLoop2(K(0), T(1), p, T(1), p); K(0).final_exp(); setK(A(0), 2 * LT(1).b * LA(2).a);)
OP("table.cancel", "ktp", if (!LT(1).set || LA(2).p.inf) return; Fp p[2]; Fp q[2]; affineOf(p, LA(2).p); affineOf(q, M::neg(LA(2).p)); bn::components::millerLoop2(K(0), T(1), p, T(1), q); K(0).final_exp(); setK(A(0), Z(0)); if (!(K(0) == Fp12(1))) bad("e(Q, P) e(Q, -P) is not 1");)
OP("two.loops", "ktqp", if (!LT(1).set || LB(2).q.inf || LA(3).p.inf) return; Fp p[2]; affineOf(p, LA(3).p); Fp12 f; Fp12 g; bn::components::millerLoop(f, T(1), p); Table t; Fp2 q[3]; bn::components::precomputeG2(t, q, Q(2).p); bn::components::millerLoop(g, t, p); Fp12::mul(K(0), f, g); K(0).final_exp(); setK(A(0), (LT(1).b + LB(2).b) * LA(3).a);)
// values
OP("gt.mul", "kkk", Z e = m->mk[A(1)] + m->mk[A(2)]; Fp12::mul(K(0), K(1), K(2)); setK(A(0), e);)
OP("gt.power", "kk", Z s = abs(scal(IMM())); Z e = m->mk[A(1)] * s; K(0) = mie::power(K(1), vuint(s)); setK(A(0), e);)
OP("gt.order", "k", if (!(mie::power(K(0), bn::Param::r) == Fp12(1))) bad("the order of the value does not divide r"); if ((K(0) == Fp12(1)) != (m->mk[A(0)] == 0)) bad("equal to 1");)
OP("gt.eq", "kk", if ((K(0) == K(1)) != (m->mk[A(0)] == m->mk[A(1)])) bad("comparison");)
// points
OP("p.mul", "pp", Z s = scal(IMM()); Z a = M::mdm(LA(1).a * s, M::C.r); if (sgn(s) < 0) { P(0) = P(1) * s; } else { P(0) = P(1) * vuint(s); } LA(0).a = a; LA(0).p = mul1(a);)
OP("q.mul", "qq", Z s = scal(IMM()); Z b = M::mdm(LB(1).b * s, M::C.r); if (sgn(s) < 0) { Q(0) = Q(1) * s; } else { Q(0) = Q(1) * vuint(s); } LB(0).b = b; LB(0).q = mul2(b);)
OP("p.add", "ppp", MP t; t.a = M::mdm(LA(1).a + LA(2).a, M::C.r); t.p = M::add(LA(1).p, LA(2).p); P(0) = P(1) + P(2); LA(0) = t;)
OP("q.add", "qqq", MQ t; t.b = M::mdm(LB(1).b + LB(2).b, M::C.r); t.q = M::add(LB(1).q, LB(2).q); Q(0) = Q(1) + Q(2); LB(0) = t;)
OP("q.neg", "qq", MQ t; t.b = M::mdm(-LB(1).b, M::C.r); t.q = M::neg(LB(1).q); Ec2::neg(Q(0), Q(1)); LB(0) = t;)
OP("p.normalize", "p", P(0).normalize();)
OP("q.normalize", "q", Q(0).normalize();)
OP("p.rep", "p", Rng r(IMM()); putP(P(0), LA(0).p, r);)
OP("q.rep", "q", Rng r(IMM()); putQ(Q(0), LB(0).q, r);)
OP("p.new", "p", Rng r(IMM()); LA(0).a = M::mdm(genScalar(r), M::C.r); LA(0).p = mul1(LA(0).a); putP(P(0), LA(0).p, r);)
OP("q.new", "q", Rng r(IMM()); LB(0).b = M::mdm(genScalar(r), M::C.r); LB(0).q = mul2(LB(0).b); putQ(Q(0), LB(0).q, r);)
OP("p.inf", "p", Rng r(IMM()); LA(0).a = 0; LA(0).p = P1(); putP(P(0), LA(0).p, r);)
// a point of unknown logarithm against the definition
OP("def", "q", if (LB(0).q.inf) return; P1 p = M::randomPoint1(Z((unsigned long)IMM())); Fp2 q[2]; Fp pp[2]; affineOf(q, LB(0).q); affineOf(pp, p); Fp12 f; bn::opt_atePairing<Fp>(f, q, pp); if (val(f) != M::pairing(LB(0).q, p)) bad("not the pairing of the definition");)
OP("def.table", "t", if (!LT(0).set) return; P1 p = M::randomPoint1(Z((unsigned long)IMM())); Fp pp[2]; affineOf(pp, p); Fp12 f; bn::components::millerLoop(f, T(0), pp); f.final_exp(); if (val(f) != M::pairing(LT(0).q, p)) bad("not the pairing of the definition");)
OP("frob", "q", if (LB(0).q.inf) return; Fp2 q[3]; Fp2 o[2]; affineOf(q, LB(0).q); P2 w = M::frobTwist(LB(0).q); bn::ecop::FrobEndOnTwist_1(o, q); if (!(val(o[0]) == w.x) || !(val(o[1]) == w.y)) bad("FrobEndOnTwist_1"); w = M::frobTwist(w); bn::ecop::FrobEndOnTwist_2(o, q); if (!(val(o[0]) == w.x) || !(val(o[1]) == w.y)) bad("FrobEndOnTwist_2"); for (int i = 0; i < 6; i++) { w = M::frobTwist(w); } bn::ecop::FrobEndOnTwist_8(o, q); if (!(val(o[0]) == w.x) || !(val(o[1]) == w.y)) bad("FrobEndOnTwist_8");)

// the steps of the Miller loop: the point in homogeneous coordinates and the line up to a factor in Fp2
void putHom(Fp2 *o, const P2& q, Rng& r)
{
	F2 z(M::fmul(genRawFp(r), M::C.Rinv), r.chance(1, 3) ? Z(0) : M::fmul(genRawFp(r), M::C.Rinv));
	if (M::isZero(z) || r.chance(1, 3)) z = F2(1);
	put(o[0], q.x * z);
	put(o[1], q.y * z);
	put(o[2], z);
}
void checkStep(const Fp2 *R, const P2& want, const Fp6& l, const F2 *e)
{
	if (!canon(R[0]) || !canon(R[1]) || !canon(R[2]) || !canon(l)) violate("not-canonical", m->what);
	const F2 z = val(R[2]);
	if (want.inf ? !M::isZero(z) : M::isZero(z) || !(val(R[0]) == want.x * z) || !(val(R[1]) == want.y * z)) bad("the point");
	const F2 v[3] = { val(l.a_), val(l.b_), val(l.c_) };
	if (M::isZero(v[0]) && M::isZero(v[1]) && M::isZero(v[2])) bad("the line is zero");
	for (int i = 0; i < 3; i++) for (int j = 0; j < i; j++) if (!(v[i] * e[j] == v[j] * e[i])) bad("the line");
}
OP("line.double", "qp", if (LB(0).q.inf || LA(1).p.inf) return;
	Rng r(IMM()); const P2& q = LB(0).q; const P1& p = LA(1).p;
	Fp2 R[3]; Fp pp[2]; putHom(R, q, r); affineOf(pp, p); Fp6 l;
	switch (r.below(4)) {
	case 0: Fp6::pointDblLineEval(l, R, pp); break;
	case 1: Fp6::pointDblLineEvalC(l, R, pp); break;
	case 2: Fp6::pointDblLineEvalWithoutP(l, R); Fp6::mulFp6_24_Fp_01(l, pp); break;
	default: Fp6::pointDblLineEvalWithoutPC(l, R); Fp6::mulFp6_24_Fp_01(l, pp);
	}
	const F2 x2 = q.x * q.x; const F2 y2 = q.y * q.y;
	F2 e[3];
	e[0] = M::C.xi * (y2 + y2 - (x2 * q.x) * Z(3)); e[1] = (-(q.y + q.y)) * p.y; e[2] = (x2 * Z(3)) * p.x;
	checkStep(R, M::add(q, q), l, e);)
OP("line.add", "qqp", if (LB(0).q.inf || LB(1).q.inf || LA(2).p.inf || LB(0).q.x == LB(1).q.x) return;
	Rng r(IMM()); const P2& q = LB(0).q; const P2& s = LB(1).q; const P1& p = LA(2).p;
	Fp2 R[3]; Fp2 S[2]; Fp pp[2]; putHom(R, q, r); affineOf(S, s); affineOf(pp, p); Fp6 l;
	if (r.chance(1, 2)) Fp6::pointAddLineEval(l, R, S, pp); else { Fp6::pointAddLineEvalWithoutP(l, R, S); Fp6::mulFp6_24_Fp_01(l, pp); }
	const F2 t1 = q.x - s.x; const F2 t2 = q.y - s.y;
	F2 e[3];
	e[0] = M::C.xi * (t2 * s.x - t1 * s.y); e[1] = t1 * p.y; e[2] = (-t2) * p.x;
	checkStep(R, M::add(q, s), l, e);)

int lim(char c) { switch (c) { case 'p': return NP; case 'q': return NQ; case 't': return NT; default: return NK; } }
void *addr(char c, int i) { switch (c) { case 'p': return m->p[i]; case 'q': return m->q[i]; case 't': return m->tq[i]; default: return m->k[i]; } }
u64 tableHash(int i) { return m->t[i]->empty() ? 0 : hashBytes(&(*m->t[i])[0], m->t[i]->size() * sizeof(Fp6)); }

void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int i = 0; i < NP; i++) m->p[i] = (Ec1 *)m->ar.add(strf("p%d", i), sizeof(Ec1), lay * 31 + i);
	for (int i = 0; i < NQ; i++) m->q[i] = (Ec2 *)m->ar.add(strf("q%d", i), sizeof(Ec2), lay * 37 + i);
	for (int i = 0; i < NK; i++) m->k[i] = (Fp12 *)m->ar.add(strf("k%d", i), sizeof(Fp12), lay * 41 + i);
	for (int i = 0; i < NT; i++) m->tq[i] = (Fp2 *)m->ar.add(strf("t%d", i), sizeof(Fp2) * 3, lay * 43 + i);
	Table tbl[NT];
	for (int i = 0; i < NT; i++) { m->t[i] = &tbl[i]; m->mt[i].set = false; }
	initLib(p);
	Rng vr(p.hu("values"));
	for (int i = 0; i < NP; i++) { Z a = vr.chance(1, 6) ? Z(0) : genScalar(vr); m->mp[i].a = M::mdm(a, M::C.r); m->mp[i].p = mul1(m->mp[i].a); putP(*m->p[i], m->mp[i].p, vr); }
	for (int i = 0; i < NQ; i++) { Z b = vr.chance(1, 6) ? Z(0) : genScalar(vr); m->mq[i].b = M::mdm(b, M::C.r); m->mq[i].q = mul2(m->mq[i].b); putQ(*m->q[i], m->mq[i].q, vr); }
	for (int i = 0; i < NK; i++) { m->mk[i] = M::mdm(genScalar(vr), M::C.r); put(*m->k[i], gt(m->mk[i])); }
	m->ar.start(lay);
	int done = 0;
	u64 th[NT];
	for (int i = 0; i < NT; i++) th[i] = tableHash(i);
	for (size_t i = 0; i < p.steps.size(); i++) {
		const Step& st = p.steps[i];
		m->st = &st;
		setStep(i);
		if (st.op() == "reinit") {
			Cfg c = cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		if (st.op() == "garbage") {
			poisonBelow(st.u(1), 48 << 10);
			alloc::poison = (unsigned char)st.u(1);
			stat("fault.garbage");
			continue;
		}
		std::map<std::string, int>::iterator it = idx.find(st.op());
		if (it == idx.end()) continue;
		const Op& o = ops[it->second];
		const size_t n = strlen(o.sig);
		bool ok = true;
		std::string rel = o.name;
		for (size_t j = 0; j < n; j++) {
			if (A((int)j) >= lim(o.sig[j])) { ok = false; break; }
			switch (o.sig[j]) {
			case 'p': rel += m->mp[A(j)].p.inf ? "o" : val(m->p[A(j)]->p[2]) == 1 ? "n" : "j"; break;
			case 'q': rel += m->mq[A(j)].q.inf ? "o" : val(m->q[A(j)]->p[2]) == F2(1) ? "n" : "j"; break;
			case 't': rel += m->mt[A(j)].set ? "t" : "e"; break;
			default: rel += m->mk[A(j)] == 0 ? "1" : "k";
			}
			for (size_t k = 0; k < j; k++) if (addr(o.sig[j], A((int)j)) == addr(o.sig[k], A((int)k))) rel += strf("=%d", (int)k);
		}
		if (!ok) continue;
		m->what = strf("step %d ", (int)i) + o.name;
		for (size_t j = 0; j < n; j++) m->what += strf(" %c%d", o.sig[j], A((int)j));
		cover(rel);
		o.run();
		// the value of every object named in the operation
		std::vector<void *> d;
		for (size_t j = 0; j < n; j++) {
			const int a = A((int)j);
			d.push_back(addr(o.sig[j], a));
			switch (o.sig[j]) {
			case 'p': if (affine(*m->p[a]) != m->mp[a].p) bad(strf("point p%d", a)); break;
			case 'q': if (affine(*m->q[a]) != m->mq[a].q) bad(strf("point q%d", a)); break;
			case 'k':
				if (!canon(*m->k[a])) violate("not-canonical", m->what);
				if (val(*m->k[a]) != gt(m->mk[a])) bad(strf("the value is not e(g2, g1)^%s", M::str(m->mk[a]).c_str()));
				break;
			}
		}
		m->ar.check(m->what, d);
		for (int j = 0; j < NT; j++) {
			u64 h = tableHash(j);
			if (!(o.sig[0] == 't' && A(0) == j) && h != th[j]) violate("operand-changed", m->what + " changed a precomputed table");
			th[j] = h;
		}
		void *a = addr(o.sig[0], A(0));
		evBytes(o.name, a, o.sig[0] == 'k' ? sizeof(Fp12) : sizeof(Ec1));
		done++;
		stat("ops");
	}
	if (done >= 2) nontrivial();
	if (done) sample(strf("%d operations, last: ", done) + m->what);
}
void prepare(const Plan& p)
{
	initModel(p);
	baseTable();
	mul1(1);
	mul2(1);
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	int nclients = (int)r.range(1, 4), len = (int)r.range(3, thorough ? 36 : 14);
	std::vector<int> use;
	int keep = (int)r.range(2, 10);
	for (size_t i = 0; i < ops.size(); i++) if (r.chance(keep, 10)) use.push_back((int)i);
	if (use.size() < 3) for (size_t i = 0; i < ops.size(); i++) use.push_back((int)i);
	bool chain = r.chance(1, 2);
	int alias = (int)r.below(3), faults = (int)r.below(4);
	std::vector<std::map<char, int> > last(nclients);
	if (r.chance(1, 2)) for (int i = 0; i < NT; i++) p.add(StepB("table.make")(i)(r.below(NQ))(0)(0)(0)(0));
	for (int i = 0; i < len; i++) {
		int c = (int)r.below(nclients);
		if (faults && r.chance(1, 8)) {
			if (r.chance(1, 2)) p.add(StepB("garbage")(r.below(1000)));
			else p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2)));
		}
		const Op& o = ops[use[r.below(use.size())]];
		StepB b(o.name);
		const size_t n = strlen(o.sig);
		int a[5] = { 0, 0, 0, 0, 0 };
		for (size_t j = 0; j < n; j++) {
			char k = o.sig[j];
			a[j] = (int)r.below(lim(k));
			if (chain && j > 0 && last[c].count(k) && r.chance(1, 2)) a[j] = last[c][k];
			for (size_t q = 0; q < j; q++) if (o.sig[q] == k && r.chance(alias, 4)) a[j] = a[q];
		}
		for (int j = 0; j < 5; j++) b(a[j]);
		b(r.chance(1, 5) ? r.below(5) : r.next() >> 8);
		last[c][o.sig[0]] = a[0];
		p.add(b);
	}
}
World w("pairing", gen, exec, prepare);
}
