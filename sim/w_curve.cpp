// C08: histories of group operations on both curves against affine arithmetic of the model.
#include "bridge.h"
#include <string.h>
#include <functional>
using namespace B;
using M::F2; using M::P1; using M::P2;
using bn::Fp; using bn::Fp2; using bn::Ec1; using bn::Ec2;

namespace {
const int NA = 5, NB = 4;
struct Mach {
	Arena ar;
	Ec1 *a[NA];
	Ec2 *b[NB];
	P1 ma[NA];
	P2 mb[NB];
	const Step *st;
	std::string what;
};
Mach *m;

template<int G> struct Gr;
template<> struct Gr<1> {
	typedef Ec1 E; typedef Fp F; typedef Z MF; typedef P1 P;
	enum { N = NA };
	static E& l(int i) { return *m->a[i]; }
	static P& p(int i) { return m->ma[i]; }
	static P gen() { return M::g1(); }
	static P rnd(Rng& r) { return M::randomPoint1(Z((unsigned long)r.next())); }
	static MF rndF(Rng& r) { return M::fmul(genRawFp(r), M::C.Rinv); }
	static bool onJac(const F *x) { return bn::ecop::isOnECJac3(x); }
	static bool onHom2(const F *x) { return bn::ecop::isOnECHom2(x); }
	static bool onHom3(const F *x) { return bn::ecop::isOnECHom3(x); }
	static MF one() { return Z(1); }
	static MF inField(const MF& x) { return x; }
	static MF co() { return M::C.b; }
	static bool root(MF& y, const MF& x) { return M::fsqrt(y, x); }
	static MF sharing(const MF&, Rng& r) { return rndF(r); }
	static std::string str(const MF& x) { return M::str(x, 16); }
};
template<> struct Gr<2> {
	typedef Ec2 E; typedef Fp2 F; typedef F2 MF; typedef P2 P;
	enum { N = NB };
	static E& l(int i) { return *m->b[i]; }
	static P& p(int i) { return m->mb[i]; }
	static P gen() { return M::g2(); }
	static P rnd(Rng& r) { return M::randomPoint2(Z((unsigned long)r.below(40))); }
	static MF rndF(Rng& r) { Z a = M::fmul(genRawFp(r), M::C.Rinv); Z b = r.chance(1, 4) ? Z(0) : M::fmul(genRawFp(r), M::C.Rinv); return F2(a, b); }
	static bool onJac(const F *x) { return bn::ecop::isOnTwistECJac3(x); }
	static bool onHom2(const F *x) { return bn::ecop::isOnTwistECHom2(x); }
	static bool onHom3(const F *x) { return bn::ecop::isOnTwistECHom3(x); }
	static MF one() { return F2(1); }
	static MF inField(const MF& x) { return F2(x.a == 0 ? Z(1) : x.a, Z(0)); }
	static MF co() { return M::C.bxi; }
	static bool root(MF& y, const MF& x) { return M::sqrt2(y, x); }
	static MF sharing(const MF& x, Rng& r) { Z t = M::fmul(genRawFp(r), M::C.Rinv); return r.chance(1, 2) ? F2(x.a, t) : F2(t, x.b); }
	static std::string str(const MF& x) { return "[" + M::str(x.a, 16) + "," + M::str(x.b, 16) + "]"; }
};
void bad(const std::string& s) { violate("wrong-value", m->what + ": " + s); }
void expect(bool got, bool want, const char *t) { if (got != want) bad(strf("%s is %d instead of %d", t, got, want)); }
std::string pstr(const P1& p) { return p.inf ? "0" : "(" + zhex(p.x) + "," + zhex(p.y) + ")"; }
std::string pstr(const P2& p) { return p.inf ? "0" : "(" + M::str(p.x) + "," + M::str(p.y) + ")"; }

template<int G> void verify(int i)
{
	typedef Gr<G> R;
	if (!canon(R::l(i))) {
		// coordinates of zero other than z have no value
		if (!(R::p(i).inf && canon(R::l(i).p[2]))) violate("not-canonical", m->what + ": a coordinate is not reduced");
	}
	typename R::P g = affine(R::l(i));
	if (g != R::p(i)) bad("point " + std::to_string(i) + " is " + pstr(g) + " instead of " + pstr(R::p(i)));
}
// any representation of a point
template<int G> void putPoint(typename Gr<G>::E& e, const typename Gr<G>::P& p, Rng& r)
{
	typedef Gr<G> R;
	if (p.inf) {
		switch (r.below(3)) {
		case 0: e.clear(); break;
		case 1: put(e.p[0], R::rndF(r)); put(e.p[1], R::rndF(r)); e.p[2].clear(); break;
		default: put(e.p[0], R::one()); put(e.p[1], R::one()); e.p[2].clear(); break;
		}
		return;
	}
	typename R::MF z = R::rndF(r);
	if (r.chance(1, 3) || M::isZero(z)) z = R::one();
	putJac(e, p, z);
}
Z cubeRoot() // of 1
{
	static std::map<Z, Z> known;
	Z& w = known[M::C.p];
	for (unsigned long i = 2; w == 0 || w == 1; i++) w = M::fpow(Z(i), (M::C.p - 1) / 3);
	return w;
}
template<class T> T times(const T& x, const Z& y);
template<> Z times(const Z& x, const Z& y) { return M::fmul(x, y); }
template<> F2 times(const F2& x, const Z& y) { return F2(M::fmul(x.a, y), M::fmul(x.b, y)); }
// a new point, sometimes related to an old one
template<int G> bool fresh(typename Gr<G>::E& e, typename Gr<G>::P& p, const typename Gr<G>::P& old, Rng& r)
{
	typedef Gr<G> R;
	typedef M::Ops<typename R::MF> O;
	typename R::P q;
	typename R::MF z, y;
	switch (r.below(old.inf ? 2 : 7)) {
	case 0: case 1: if (!genJac(r, q, z)) return false; p = q; putJac(e, p, z); return true;
	case 2: { // the same y
		Z w = cubeRoot();
		if (r.chance(1, 2)) w = M::fmul(w, w);
		q = typename R::P(times(old.x, w), old.y);
		break;
	}
	case 3: { // x is equal in one component or differs by a boundary biased value
		const typename R::MF x = r.chance(1, 2) ? R::sharing(old.x, r) : O::add(old.x, R::rndF(r));
		if (!R::root(y, O::add(O::mul(O::mul(x, x), x), R::co()))) return false;
		q = typename R::P(x, y);
		break;
	}
	case 4: q = M::add(old, old); break;
	default: q = old; break;
	}
	if (r.chance(1, 3)) q = M::neg(q);
	p = q;
	putPoint<G>(e, p, r);
	return true;
}
Z zOf(u64 imm)
{
	Rng r(imm);
	return genScalar(r);
}
struct Op {
	const char *name;
	int nreg;
	int dest; // registers which may get a new value: 0 or 1 (the first)
	std::function<void()> run;
};
std::vector<Op> ops;
std::map<std::string, int> idx;
int R_(int i) { return (int)m->st->u(i + 1); }
u64 IMM() { return m->st->u(4); }

template<int G> struct Table {
	typedef Gr<G> R;
	typedef typename R::E E;
	typedef typename R::F F;
	typedef typename R::P P;
	static E& L(int i) { return R::l(R_(i)); }
	static P& MP(int i) { return R::p(R_(i)); }
	static void reg(const char *n, int nreg, int dest, std::function<void()> f)
	{
		static std::vector<std::string *> names;
		names.push_back(new std::string(std::string(G == 1 ? "1." : "2.") + n));
		Op o = { names.back()->c_str(), nreg, dest, f };
		idx[o.name] = (int)ops.size();
		ops.push_back(o);
	}
	template<class S> static void mulBy(const S& s, const Z& v, int how)
	{
		P t = M::mul(MP(1), v);
		switch (how % 4) {
		case 0: E::mul(L(0), L(1), s); break;
		case 1: L(0) = L(1) * s; break;
		case 2: if (&L(0) != &L(1)) L(0) = L(1); L(0) *= s; break;
		default: bn::ecop::ScalarMult(L(0).p, L(1).p, s); break;
		}
		MP(0) = t;
	}
	Table()
	{
		reg("add", 3, 1, [] { P t = M::add(MP(1), MP(2)); E::add(L(0), L(1), L(2)); MP(0) = t; });
		reg("sub", 3, 1, [] { P t = M::add(MP(1), M::neg(MP(2))); E::sub(L(0), L(1), L(2)); MP(0) = t; });
		reg("dbl", 2, 1, [] { P t = M::add(MP(1), MP(1)); E::dbl(L(0), L(1)); MP(0) = t; });
		reg("neg", 2, 1, [] { P t = M::neg(MP(1)); E::neg(L(0), L(1)); MP(0) = t; });
		reg("op+", 3, 1, [] { P t = M::add(MP(1), MP(2)); L(0) = L(1) + L(2); MP(0) = t; });
		reg("op-", 3, 1, [] { P t = M::add(MP(1), M::neg(MP(2))); L(0) = L(1) - L(2); MP(0) = t; });
		reg("op+=", 2, 1, [] { P t = M::add(MP(0), MP(1)); L(0) += L(1); MP(0) = t; });
		reg("op-=", 2, 1, [] { P t = M::add(MP(0), M::neg(MP(1))); L(0) -= L(1); MP(0) = t; });
		reg("raw.add", 3, 1, [] { P t = M::add(MP(1), MP(2)); bn::ecop::ECAdd(L(0).p, L(1).p, L(2).p); MP(0) = t; });
		reg("raw.dbl", 2, 1, [] { P t = M::add(MP(1), MP(1)); bn::ecop::ECDouble(L(0).p, L(1).p); MP(0) = t; });
		reg("copy", 2, 1, [] { P t = MP(1); L(0) = L(1); MP(0) = t; });
		reg("ctor.copy", 2, 1, [] { P t = MP(1); E e(L(1)); L(0) = e; MP(0) = t; });
		reg("clear", 1, 1, [] { L(0).clear(); MP(0) = P(); });
		reg("normalize", 1, 0, [] {
			L(0).normalize();
			if (!MP(0).inf && !(L(0).p[2] == 1)) bad("z is not 1 after normalize");
		});
		reg("raw.normalize", 2, 1, [] {
			P t = MP(1);
			bn::ecop::NormalizeJac(L(0).p, L(1).p);
			MP(0) = t;
			if (!t.inf && !(val(L(0).p[2]) == R::one())) bad("z is not 1 after NormalizeJac");
		});
		reg("raw.hom", 1, 0, [] {
			// homogeneous coordinates (x z, y z, z)
			Rng r(IMM());
			typename R::MF z = R::rndF(r);
			if (MP(0).inf || M::isZero(z)) return;
			typedef M::Ops<typename R::MF> O;
			F h[3], o[3];
			put(h[0], O::mul(MP(0).x, z)); put(h[1], O::mul(MP(0).y, z)); put(h[2], z);
			expect(R::onHom3(h), true, "isOnECHom3");
			bn::ecop::NormalizeHom(o, h);
			if (!(val(o[0]) == MP(0).x) || !(val(o[1]) == MP(0).y) || !(val(o[2]) == R::one())) bad("NormalizeHom");
			expect(R::onHom2(o), true, "isOnECHom2");
			bn::ecop::NormalizeHom(h, h);
			if (!(val(h[0]) == MP(0).x) || !(val(h[1]) == MP(0).y)) bad("NormalizeHom in place");
			h[2].clear();
			bn::ecop::NormalizeHom(o, h);
			if (!(o[2] == 0)) bad("NormalizeHom of a point at infinity");
			put(h[1], O::add(MP(0).y, R::one()));
			P off(MP(0).x, O::add(MP(0).y, R::one()));
			expect(R::onHom2(h), M::onCurve(off), "isOnECHom2");
		});
		reg("mul.int", 2, 1, [] { int s = (int)IMM(); Rng r(IMM()); mulBy(s, Z(s), (int)r.below(4)); });
		reg("mul.size_t", 2, 1, [] { Rng r(IMM()); size_t s = r.chance(1, 3) ? r.below(9) : r.next() >> r.below(64); mulBy(s, Z((unsigned long)s), (int)r.below(4)); });
		reg("mul.Vuint", 2, 1, [] { Rng r(IMM()); Z s = abs(genScalar(r)); mie::Vuint v = vuint(s); mulBy(v, s, (int)r.below(4)); if (val(v) != s) bad("the scalar changed"); });
		reg("mul.mpz", 2, 1, [] { Rng r(IMM()); Z s = genScalar(r); if (r.chance(1, 3)) s = -s; mpz_class v = s; mulBy(v, s, (int)r.below(4)); if (v != s) bad("the scalar changed"); });
		reg("mul.order", 2, 1, [] { Rng r(IMM()); Z s = M::C.r * (unsigned long)r.below(3); mulBy(vuint(s), s, (int)r.below(4)); });
		reg("eq", 2, 0, [] { bool w = MP(0) == MP(1); expect(L(0) == L(1), w, "=="); expect(L(0) != L(1), !w, "!="); });
		reg("eq.copy", 1, 0, [] { Rng r(IMM()); E e; putPoint<G>(e, MP(0), r); expect(e == L(0), true, "== of two representations"); expect(L(0) != e, false, "!= of two representations"); });
		reg("isZero", 1, 0, [] { expect(L(0).isZero(), MP(0).inf, "isZero"); });
		reg("isValid", 1, 0, [] { expect(L(0).isValid(), true, "isValid"); });
		reg("isValid.off", 1, 0, [] {
			// a point whose y was moved
			if (MP(0).inf) return;
			Rng r(IMM());
			typedef M::Ops<typename R::MF> O;
			typename R::MF d = r.chance(1, 2) ? R::one() : R::rndF(r);
			P off = MP(0);
			if (r.chance(1, 2)) almostOn(r, off);
			else if (r.chance(1, 2)) off.y = O::add(off.y, d);
			else off.x = O::add(off.x, d);
			bool on = M::onCurve(off);
			typename R::MF z = R::rndF(r);
			if (M::isZero(z) || r.chance(1, 2)) z = R::one();
			else if (r.chance(1, 3)) z = R::inField(z);
			E t;
			putJac(t, off, z);
			expect(t.isValid(), on, "isValid of a moved point");
			F x, y;
			put(x, off.x); put(y, off.y);
			bool thrown = false;
			try { E u(x, y); (void)u; } catch (std::exception&) { thrown = true; }
			expect(thrown, !on, "rejection by the constructor");
			thrown = false;
			try { E u(t.p[0], t.p[1], t.p[2]); (void)u; } catch (std::exception&) { thrown = true; }
			expect(thrown, !on, "rejection by the Jacobian constructor");
			E v(x, y, false);
			expect(v.isValid(), on, "isValid of an unverified point");
		});
		reg("set.xy", 2, 1, [] { if (MP(1).inf) return; F x, y; put(x, MP(1).x); put(y, MP(1).y); P t = MP(1); Rng r(IMM()); if (r.chance(1, 2)) L(0).set(x, y, r.chance(1, 2)); else L(0) = E(x, y); MP(0) = t; });
		reg("set.xyz", 2, 1, [] { P t = MP(1); E e = L(1); Rng r(IMM()); if (r.chance(1, 2)) L(0).set(e.p[0], e.p[1], e.p[2], r.chance(1, 2)); else L(0) = E(e.p[0], e.p[1], e.p[2]); MP(0) = t; });
		reg("load", 2, 1, [] { P t; Rng r(IMM()); if (fresh<G>(L(0), t, MP(1), r)) MP(0) = t; });
		reg("rep", 2, 1, [] { P t = MP(1); Rng r(IMM()); putPoint<G>(L(0), t, r); MP(0) = t; });
		reg("opposite", 2, 1, [] { P t = M::neg(MP(1)); Rng r(IMM()); putPoint<G>(L(0), t, r); MP(0) = t; });
		reg("text", 1, 0, [] {
			std::ostringstream os;
			os << L(0);
			std::string w = MP(0).inf ? std::string("0") : R::str(MP(0).x) + "_" + R::str(MP(0).y);
			if (os.str() != w) bad("text " + os.str() + " instead of " + w);
		});
		reg("text.read", 2, 1, [] {
			P t = MP(1);
			std::ostringstream os;
			os << L(1);
			std::istringstream is(os.str());
			is >> L(0);
			MP(0) = t;
		});
		reg("coord", 1, 0, [] { // coordinates of the normalized point
			E t = L(0);
			t.normalize();
			if (!MP(0).inf && (!(val(t.p[0]) == MP(0).x) || !(val(t.p[1]) == MP(0).y))) bad("coordinates after normalize");
		});
	}
};
Table<1> t1;
Table<2> t2;

template<int G> std::string rel(const Op& o)
{
	typedef Gr<G> R;
	std::string s = o.name;
	for (int i = 0; i < o.nreg; i++) {
		const typename R::P& p = R::p(R_(i));
		s += p.inf ? "o" : (val(R::l(R_(i)).p[2]) == R::one() ? "n" : "j");
		for (int j = 0; j < i; j++) {
			if (R_(i) == R_(j)) s += strf("=%d", j);
			else if (!p.inf && R::p(R_(j)) == p) s += strf("~%d", j);
			else if (!p.inf && R::p(R_(j)) == M::neg(p)) s += strf("-%d", j);
		}
	}
	return s;
}
template<int G> void step(const Op& o)
{
	typedef Gr<G> R;
	m->what += strf(" (registers");
	for (int i = 0; i < o.nreg; i++) m->what += strf(" %d", R_(i));
	m->what += ")";
	cover(rel<G>(o));
	o.run();
	std::vector<void *> d;
	// every object named in the operation may change its representation, but not its value
	for (int i = 0; i < o.nreg; i++) {
		d.push_back(&R::l(R_(i)));
		verify<G>(R_(i));
	}
	m->ar.check(m->what, d);
	typename R::P g = affine(R::l(R_(0)));
	ev(o.name);
	ev(pstr(g));
}

void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int i = 0; i < NA; i++) m->a[i] = (Ec1 *)m->ar.add(strf("a%d", i), sizeof(Ec1), lay * 31 + i);
	for (int i = 0; i < NB; i++) m->b[i] = (Ec2 *)m->ar.add(strf("b%d", i), sizeof(Ec2), lay * 37 + i);
	initLib(p);
	Rng vr(p.hu("values"));
	for (int i = 0; i < NA; i++) {
		P1 q;
		switch (vr.below(6)) {
		case 0: break;
		case 1: q = M::mul(M::g1(), Z((unsigned long)vr.range(1, 6))); break;
		case 2: q = i ? m->ma[vr.below(i)] : M::g1(); break;
		case 3: q = i ? M::neg(m->ma[vr.below(i)]) : M::neg(M::g1()); break;
		default: q = M::randomPoint1(Z((unsigned long)vr.next())); break;
		}
		m->ma[i] = q;
		putPoint<1>(*m->a[i], q, vr);
	}
	for (int i = 0; i < NB; i++) {
		P2 q;
		switch (vr.below(6)) {
		case 0: break;
		case 1: q = M::mul(M::g2(), Z((unsigned long)vr.range(1, 6))); break;
		case 2: q = i ? m->mb[vr.below(i)] : M::g2(); break;
		case 3: q = i ? M::neg(m->mb[vr.below(i)]) : M::neg(M::g2()); break;
		default: q = Gr<2>::rnd(vr); break;
		}
		m->mb[i] = q;
		putPoint<2>(*m->b[i], q, vr);
	}
	m->ar.start(lay);
	int done = 0;
	for (size_t i = 0; i < p.steps.size(); i++) {
		const Step& st = p.steps[i];
		m->st = &st;
		setStep(i);
		if (st.op() == "reinit") {
			Cfg c = cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		if (st.op() == "garbage") {
			poisonBelow(st.u(1), 48 << 10);
			alloc::poison = (unsigned char)st.u(1);
			stat("fault.garbage");
			continue;
		}
		std::map<std::string, int>::iterator it = idx.find(st.op());
		if (it == idx.end()) continue;
		const Op& o = ops[it->second];
		const int lim = o.name[0] == '1' ? NA : NB;
		bool ok = true;
		for (int j = 0; j < o.nreg; j++) if (R_(j) >= lim) ok = false;
		if (!ok) continue;
		m->what = strf("step %d ", (int)i) + o.name;
		if (o.name[0] == '1') step<1>(o); else step<2>(o);
		done++;
		stat("ops");
	}
	if (done >= 3) nontrivial();
	if (done) sample(strf("%d operations, last: ", done) + m->what);
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	int nclients = (int)r.range(1, 4), len = (int)r.range(3, thorough ? 60 : 25);
	std::vector<int> use;
	int keep = (int)r.range(2, 10);
	for (size_t i = 0; i < ops.size(); i++) {
		bool slow = std::string(ops[i].name).find("mul") != std::string::npos;
		if (r.chance(keep, 10) && !(slow && r.chance(2, 3))) use.push_back((int)i);
	}
	if (use.size() < 3) for (size_t i = 0; i < ops.size(); i++) use.push_back((int)i);
	bool chain = r.chance(1, 2);
	int alias = (int)r.below(3), faults = (int)r.below(4), load = (int)r.below(4);
	std::vector<std::map<char, int> > last(nclients);
	for (int i = 0; i < len; i++) {
		int c = (int)r.below(nclients);
		if (faults && r.chance(1, 12)) {
			if (r.chance(1, 2)) p.add(StepB("garbage")(r.below(1000)));
			else p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2)));
		}
		const Op& o = ops[use[r.below(use.size())]];
		char k = o.name[0];
		int lim = k == '1' ? NA : NB, a[3];
		StepB b(o.name);
		for (int j = 0; j < 3; j++) {
			a[j] = (int)r.below(lim);
			if (chain && j > 0 && last[c].count(k) && r.chance(1, 2)) a[j] = last[c][k];
			if (j && r.chance(alias, 4)) a[j] = a[r.below(j)];
			b(a[j]);
		}
		if (load && o.nreg > 1 && r.chance(load, 5)) { // operands which are chosen together
			const int x = (int)r.range(o.nreg > 2 ? 1 : 0, o.nreg - 1), y = (int)r.below(o.nreg);
			p.add(StepB(k == '1' ? "1.load" : "2.load")(a[x])(r.chance(1, 3) ? a[x] : a[y])(0)(r.next() >> 16));
		}
		u64 im = r.next() >> 8;
		switch (r.below(7)) { case 0: im = r.below(9); break; case 1: im = (u32)-(int)r.below(9); break; case 2: im = 0x80000000u; break; case 3: im = 0x7fffffff; break; }
		b(im);
		if (o.dest) last[c][k] = a[0];
		p.add(b);
	}
}
World w("curve", gen, exec, initModel);
}
