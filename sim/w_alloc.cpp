#include <memory>
// C05: memory allocations fail at seeded moments of every operation which allocates.
#include "anyops.h"
#include <string.h>
#include <functional>
#ifndef BN_SUPPORT_SNARK
#include "bn254_if.hpp"
#endif
using namespace B;
using A::Val;

namespace {
const int NREG = 2;
struct FixOut : std::streambuf {
	char b[16384];
	FixOut() { setp(b, b + sizeof b); }
	std::string str() const { return std::string(pbase(), pptr()); }
};
struct FixIn : std::streambuf {
	explicit FixIn(std::string& s) { setg(&s[0], &s[0], &s[0] + s.size()); }
	size_t pos() const { return gptr() - eback(); }
};
struct Mach {
	Arena ar;
	void *reg[A::NKIND][NREG];
	Val val[A::NKIND][NREG];
	bn::Fp2 *q;       // 3 coordinates, output of the precomputation
	bn::Fp12 *f;      // value of a pairing
	std::vector<bn::Fp6> *tab;
	const Step *st;
	std::string what;
	bool fired;
};
Mach *m;
void bad(const std::string& cls, const std::string& s) { violate(cls, m->what + ": " + s); }
std::string show(const std::string& s) { std::string e = escText(s); return e.size() > 700 ? e.substr(0, 700) + "..." : e; }
typedef std::function<bool()> Try;  // the library operation alone. false: reported by the stream state
typedef std::function<void()> Then;

// one attempt with failing allocations. 0: reported failure, 1: success
int attempt(const Try& op, int mode, long n, u64 mask, std::string& how)
{
	bool ok = false, threw = true;
	const char *other = 0;
	switch (mode) {
	case 1: alloc::failAt(n); break;
	case 2: alloc::failEvery(n); break;
	case 3: alloc::failMask(mask, (int)n); break;
	default: alloc::failAt(0); break;
	}
	try {
		ok = op();
		threw = false;
	} catch (std::bad_alloc&) {
		alloc::off();
		how = "bad_alloc";
	} catch (std::exception& e) {
		alloc::off();
		how = std::string("exception ") + e.what();
	} catch (...) {
		alloc::off();
		other = "unknown exception";
	}
	alloc::off();
	if (other) how = other;
	if (!threw) how = ok ? "ok" : "stream state";
	return ok && !threw;
}
// op under the faults of the step, then without. good: checks and releases the result; clean: releases what a failed attempt left
void run(const Try& op, const Then& good, const Then& clean, const std::vector<void *>& dests, bool mayReject)
{
	const Step& st = *m->st;
	const int mode = (int)st.u(5);
	long n = (long)st.u(6);
	u64 mask = st.u(7);
	const unsigned long c0 = alloc::calls;
	for (int a = 0;; a++) {
		int md = mode;
		if (mode == 4) { md = 1; n = a + 1; }           // every position in turn
		if (mode == 5) { md = 2; n = a + 1; }
		if ((mode < 4 && a == 1) || a >= 150) md = 0;
		std::string how;
		how.reserve(200);
		const long live = alloc::live;
		const bool ok = attempt(op, md, n, mask, how);
		const unsigned long fired = alloc::fired;
		if (ok) good(); else clean();
		if (how.size() < 200 && alloc::live != live) {
			// Kept for good (a table made at first use) or lost? What is lost is lost again by the same attempt.
			long before = live, now = alloc::live;
			for (int again = 0; again < 3 && now != before; again++) {
				before = alloc::live;
				std::string how2;
				if (attempt(op, md, n, mask, how2)) good(); else clean();
				std::string().swap(how2);
				now = alloc::live;
			}
			if (now != before) bad("leak", strf("%ld blocks of memory are left after the operation (%s)", now - before, how.c_str()));
			stat("kept-blocks");
		}
		if (fired) { m->fired = true; stat("fault.alloc-fail", fired); }
		m->ar.check(m->what + (ok ? "" : " (failed)"), dests);
		stat(ok ? "ok" : "failed");
		cover(m->st->op() + m->st->s(1) + strf(" %d %ld %d", md, md ? (long)fired * 1000 + n : 0, (int)ok));
		ev(how);
		if (!ok && !fired && !mayReject) bad("failed", "without any failed allocation: " + how);
		if (!fired) break;
	}
	cover(m->st->op() + m->st->s(1) + strf("#%lu", std::min(alloc::calls - c0, 400UL)));
}
void sameReg(int k, int i, const std::string& why)
{
	if (A::get(k, m->reg[k][i]) != m->val[k][i]) bad("object-changed", why + ": the object is " + A::get(k, m->reg[k][i]).str() + ", it was " + m->val[k][i].str());
}
void gotReg(int k, int i, const Val& v)
{
	Val g = A::get(k, m->reg[k][i]);
	if (g != v) bad("wrong-value", "gave " + g.str() + " instead of " + v.str());
	if (!A::canon(k, m->reg[k][i])) bad("not-canonical", "not reduced or normalized");
}
void checkText(const std::string& s, const Val& v)
{
	Val w(v.k);
	if (!A::denotes(s, w) || w != v) bad("wrong-text", "gave " + show(s) + " for " + v.str());
}
void free(std::string& s) { std::string().swap(s); }
std::vector<void *> none() { return std::vector<void *>(); }

void doText() // text k i base
{
	const Step& st = *m->st;
	const int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG, base = st.u(3) & 1 ? 16 : 10;
	if (k < 0 || !A::hasSet(k)) return;
	const void *x = m->reg[k][i];
	const Val v = m->val[k][i];
	std::string out;
	run([&] { out = A::toText(k, x, base); return true; }, [&] { checkText(out, v); free(out); }, [&] { free(out); }, none(), false);
	sameReg(k, i, "conversion to text");
}
void doPut() // put k i flags
{
	const Step& st = *m->st;
	const int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG;
	const u64 fl = st.u(3);
	if (k < 0) return;
	const void *x = m->reg[k][i];
	const Val v = m->val[k][i];
	std::unique_ptr<FixOut> b;
	std::unique_ptr<std::ostream> os;
	auto fresh = [&] {
		os.reset();
		b.reset(new FixOut);
		os.reset(new std::ostream(b.get()));
		if (fl & 1) *os << std::hex;
		if (fl & 2) *os << std::showbase;
		if (fl & 4) os->exceptions(std::ios_base::badbit);
		if (fl & 8) { os->width(90); os->setf(std::ios_base::left, std::ios_base::adjustfield); }
	};
	fresh();
	run([&] { A::put(*os, k, x); return !os->fail(); }, [&] { checkText(b->str(), v); fresh(); }, [&] { fresh(); }, none(), false);
	sameReg(k, i, "writing");
}
std::string damaged(const std::string& s, Rng& r)
{
	std::string t = s;
	static const char junk[] = "[],_x-0 gf";
	for (size_t n = r.range(1, 3); n && !t.empty(); n--) {
		size_t at = r.below(t.size());
		switch (r.below(3)) {
		case 0: t[at] = junk[r.below(10)]; break;
		case 1: t.erase(at, r.range(1, 4)); break;
		default: t.insert(at, 1, junk[r.below(10)]); break;
		}
	}
	return t;
}
// read k i seed how: how 0 stream, 1.. set and constructor
void doRead()
{
	const Step& st = *m->st;
	const int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG;
	if (k < 0) return;
	Rng r(st.u(3));
	const u64 how = st.u(4);
	const bool viaSet = A::hasSet(k) && how % 2, broken = how / 2 % 4 == 3;
	const int set = (int)(how / 8 % 3);
	Val v = A::random(k, r);
	std::string text = A::text(v, r, (int)r.below(viaSet ? 8 : 32) & ~8);
	if (broken) text = damaged(text, r);
	const std::string orig = text;
	const Val old = m->val[k][i];
	void *x = m->reg[k][i];
	unsigned char keep[2048];
	const size_t sz = A::sizeOf(k);
	memcpy(keep, x, sz);
	std::vector<void *> d(1, x);
	std::unique_ptr<FixIn> b;
	std::unique_ptr<std::istream> is;
	auto fresh = [&] {
		is.reset();
		b.reset(new FixIn(text));
		is.reset(new std::istream(b.get()));
		if (how & 128) *is >> std::hex;
		if (how & 256) is->exceptions(std::ios_base::badbit);
		if (how & 512) is->exceptions(std::ios_base::failbit | std::ios_base::badbit);
		if (how & 1024) *is >> std::ws;
	};
	fresh();
	const std::string& ct = text;
	run([&] { if (viaSet) { A::setText(k, x, ct, set); return true; } A::take(*is, k, x); return !is->fail(); },
		[&] {
			std::string used = viaSet ? text : text.substr(0, b->pos());
			Val w(k);
			if (!A::denotes(used, w)) bad("accepted-bad-text", show(used));
			if (!broken && w.reduced() != v) bad("wrong-value", "of " + show(text) + " only " + show(used) + " was read");
			if (!w.onCurve()) bad("off-curve", show(used));
			gotReg(k, i, w.reduced());
			if (memcmp(keep, x, sz)) { memcpy(x, keep, sz); } // again from the old value
			fresh();
		},
		[&] {
			if (A::get(k, x) != old) bad("object-changed", "a failed read left " + A::get(k, x).str() + " instead of " + old.str());
			fresh();
		}, d, broken);
	if (text != orig) bad("text-changed", "");
	m->val[k][i] = old;
	m->ar.commit();
}
// pre k(unused) i seed: precomputed table of point q[i]
void doPre()
{
	const Step& st = *m->st;
	const int i = (int)st.u(2) % NREG;
	const bn::Ec2& q = *(const bn::Ec2 *)m->reg[A::KQ][i];
	const bn::Ec1& p1 = *(const bn::Ec1 *)m->reg[A::KP][i];
	if (m->val[A::KQ][i].inf || m->val[A::KP][i].inf) return;
	bn::Ec1 p = p1;
	p.normalize();
	std::vector<bn::Fp6> ref;
	bn::Fp2 rq[3];
	bn::components::precomputeG2(ref, rq, q.p);
	bn::Fp12 rf;
	bn::components::millerLoop(rf, ref, p.p);
	std::vector<void *> d;
	d.push_back(m->q);
	d.push_back(m->f);
	std::vector<bn::Fp6>& tab = *m->tab;
	const size_t sz = ref.size();
	const u64 pre = st.u(3) % 4;
	auto reset = [&] { if (pre == 3) return; std::vector<bn::Fp6>().swap(tab); };
	// the table may be an old one: longer, shorter or empty
	if (pre == 1) tab.resize(sz + 9);
	if (pre == 2) tab.resize(3);
	if (pre == 3) { tab.clear(); tab.reserve(2 * sz + 64); }
	long held = tab.capacity() ? 1 : 0;
	run([&] { bn::components::precomputeG2(tab, m->q, q.p); bn::components::millerLoop(*m->f, tab, p.p); return true; },
		[&] {
			if (tab.size() != sz || memcmp((void *)&tab[0], (void *)&ref[0], sz * sizeof(ref[0]))) bad("wrong-value", "another table than without failures");
			if (memcmp(m->q, rq, sizeof rq)) bad("wrong-value", "another normalized point than without failures");
			if (*m->f != rf) bad("wrong-value", "another value of the loop than without failures");
			if (!held) std::vector<bn::Fp6>().swap(tab); else if (pre != 3) { std::vector<bn::Fp6>().swap(tab); tab.resize(3); }
		},
		[&] { if (!held) std::vector<bn::Fp6>().swap(tab); else if (pre != 3) { std::vector<bn::Fp6>().swap(tab); tab.resize(3); } }, d, false);
	std::vector<bn::Fp6>().swap(tab);
	(void)reset;
	m->ar.commit();
}
#ifndef BN_SUPPORT_SNARK
// java what i seed: text of and from objects of the Java layer
template<class J> void jtext(const J& j, const Val& v)
{
	std::string out;
	run([&] { out = j.toString(); return true; }, [&] { checkText(out, v); free(out); }, [&] { free(out); }, none(), false);
}
template<class J> void jset(J& j, int k, Rng& r, bool broken)
{
	Val v = A::random(k, r);
	if (v.k == A::KV) v.c[0] = Z((unsigned long)r.next());
	std::string text = A::text(v, r, (int)r.below(2));
	if (broken) text = damaged(text, r);
	const Val old = A::get(k, &j);
	const J keep = j;
	run([&] { j.set(text); return true; },
		[&] {
			Val w(k);
			if (!A::denotes(text, w)) { if (!broken) bad("wrong-value", show(text)); } // what is accepted is judged by the Java world
			else if (A::get(k, &j) != w.reduced()) bad("wrong-value", "set to " + A::get(k, &j).str() + " by " + show(text));
			j = keep;
		},
		[&] { if (A::get(k, &j) != old) bad("object-changed", "set failed and left " + A::get(k, &j).str() + " instead of " + old.str()); }, none(), broken);
}
void doJava()
{
	const Step& st = *m->st;
	const int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG;
	Rng r(st.u(3));
	const bool set = st.u(4) & 1, broken = (st.u(4) >> 1) % 4 == 3;
	if (k < 0) return;
	const Val& v = m->val[k][i];
	switch (k) {
	case A::KV: {
		const Z z = v.c[0];
		Mpz j(z.get_str());
		Val w(k);
		w.c[0] = z;
		if (!set) { jtext(j, w); break; }
		Z t((unsigned long)r.next());
		std::string s = r.chance(1, 2) ? t.get_str() : "0x" + t.get_str(16);
		if (broken) s += "!";
		run([&] { j.set(s); return true; }, [&] { if (broken) bad("accepted-bad-text", s); if (!j.equals(Mpz(t.get_str()))) bad("wrong-value", "Mpz " + j.toString()); j = Mpz(z.get_str()); },
			[&] { if (!j.equals(Mpz(z.get_str()))) bad("object-changed", "Mpz " + j.toString()); }, none(), broken);
		break;
	}
	case A::KF: { ::Fp j; memcpy((void *)&j, m->reg[k][i], sizeof j); if (set) jset(j, k, r, broken); else jtext(j, v); break; }
	case A::KG: { ::Fp2 j; memcpy((void *)&j, m->reg[k][i], sizeof j); if (set) jset(j, k, r, broken); else jtext(j, v); break; }
	case A::KK: { ::Fp12 j; memcpy((void *)&j, m->reg[k][i], sizeof j); if (set) jset(j, k, r, broken); else jtext(j, v); break; }
	case A::KP: { ::Ec1 j; memcpy((void *)&j, m->reg[k][i], sizeof j); if (set) jset(j, k, r, broken); else jtext(j, v); break; }
	case A::KQ: { ::Ec2 j; memcpy((void *)&j, m->reg[k][i], sizeof j); if (set) jset(j, k, r, broken); else jtext(j, v); break; }
	default: break;
	}
}
#endif
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int k = 0; k < A::NKIND; k++) for (int i = 0; i < NREG; i++) m->reg[k][i] = m->ar.add(strf("%c%d", A::kindName[k], i), A::sizeOf(k), lay * 31 + k * 7 + i);
	m->q = (bn::Fp2 *)m->ar.add("tableQ", sizeof(bn::Fp2) * 3, lay);
	m->f = (bn::Fp12 *)m->ar.add("f", sizeof(bn::Fp12), lay + 1);
	std::vector<bn::Fp6> tab;
	m->tab = &tab;
	m->fired = false;
	initLib(p);
	Rng vr(p.hu("values"));
	for (int k = 0; k < A::NKIND; k++) for (int i = 0; i < NREG; i++) { m->val[k][i] = A::random(k, vr); A::construct(k, m->reg[k][i], m->val[k][i], vr); }
	m->ar.start(lay);
	int done = 0;
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		m->st = &st;
		setStep(s);
		const std::string& o = st.op();
		m->what = strf("step %d ", (int)s) + o;
		for (size_t j = 1; j < st.n(); j++) m->what += " " + st.s(j);
		if (o == "garbage") { poisonBelow(st.u(1), 48 << 10); alloc::poison = (unsigned char)st.u(1); stat("fault.garbage"); continue; }
		if (o == "text") doText();
		else if (o == "put") doPut();
		else if (o == "read") doRead();
		else if (o == "pre") doPre();
#ifndef BN_SUPPORT_SNARK
		else if (o == "java") doJava();
#endif
		else continue;
		done++;
		stat("ops");
	}
	if (done >= 2 && m->fired) nontrivial();
	if (done) sample(strf("%d operations, last: ", done) + m->what);
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	int len = (int)r.range(2, thorough ? 60 : 25);
	static const char *const ops[] = { "text", "put", "read", "read", "pre", "java" };
	const bool one = r.chance(1, 3);
	const int fav = (int)r.below(6);
	for (int i = 0; i < len; i++) {
		if (r.chance(1, 12)) p.add(StepB("garbage")(r.below(1000)));
		const char *o = ops[one ? fav : (int)r.below(6)];
		char k[2] = { A::kindName[r.below(A::NKIND)], 0 };
		static const int modes[] = { 0, 1, 1, 1, 1, 2, 2, 3, 3, 4, 5 };
		int mode = modes[r.below(11)];
		if (!strcmp(o, "pre") && mode >= 4 && r.chance(1, 2)) mode = 1;
		u64 n = mode == 3 ? r.range(2, 60) : r.chance(2, 3) ? r.range(1, 8) : r.range(1, 60);
		u64 mask = r.next() & r.next();
		if (r.chance(1, 2)) mask &= r.next();
		p.add(StepB(o)(k)(r.below(NREG))(r.next() >> 16)(r.below(2048))(mode)(n)(mask));
	}
}
World w("alloc", gen, exec, initModel);
}
