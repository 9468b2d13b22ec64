// C06: initialization under failing allocations, executable memory and page protection, on simulated processors.
#include <functional>
#include "selftest.h"
#include <string.h>
#include <unistd.h>
#include <sys/stat.h>
using namespace B;
using M::P1; using M::P2; using M::F12;

namespace {
struct Mach {
	bool ready;        // the last initialization reported success
	bool inInit, expectExit;
	int b;             // curve of the last successful initialization
	off_t out;
	bool faulted;
	int works;
	const Step *st;
	std::string what;
};
Mach *m;
void bad(const std::string& cls, const std::string& s) { violate(cls, m->what + ": " + s); }
off_t printed()
{
	fflush(stdout);
	fflush(stderr);
	struct stat s;
	off_t n = 0;
	if (!fstat(1, &s) && S_ISREG(s.st_mode)) n += s.st_size;
	return n;
}
bool canSee()
{
	struct stat s;
	return !fstat(1, &s) && S_ISREG(s.st_mode);
}
unsigned long fired() { return alloc::fired + sys::firedMemalign + sys::firedMprotect; }
void clearFired() { alloc::fired = 0; sys::firedMemalign = sys::firedMprotect = 0; }
void countFaults()
{
	if (alloc::fired) stat("fault.alloc-fail", alloc::fired);
	if (sys::firedMemalign) stat("fault.pages-refused", sys::firedMemalign);
	if (sys::firedMprotect) stat("fault.protection-refused", sys::firedMprotect);
	if (fired()) m->faulted = true;
}
// the library ends the process
void onExit(int status, void *)
{
	alloc::off();
	sys::off();
	if (!m->inInit) bad("process-exit", "an operation of an initialized library ended the process");
	countFaults();
	if (!m->expectExit && !fired()) bad("process-exit", strf("initialization ended the process with status %d without a fault", status));
	if (status == 0) bad("silent-exit", "a failed initialization ended the process with status 0");
	if (canSee() && printed() <= m->out) bad("silent-exit", "a failed initialization ended the process without a message");
	stat("init-exit");
	cover("exit " + m->what.substr(m->what.find(' ', 5)));
	ev("exit", status);
	if (m->faulted) nontrivial();
	sample("ended with a message at " + m->what);
	endRun();
}
// 0 nothing, 1 new, 2 all new from n, 3 pages (mmap), 4 all pages, 5 mprotect, 6 all mprotect, 7 pattern of new
void arm(int kind, long n)
{
	clearFired();
	switch (kind) {
	case 1: alloc::failAt(n); break;
	case 2: alloc::failEvery(n); break;
	case 3: sys::failPosixMemalign(n); break;
	case 4: sys::failPosixMemalign(-n); break;
	case 5: sys::failMprotect(n); break;
	case 6: sys::failMprotect(-n); break;
	case 7: alloc::failMask((u64)n, 7); break;
	}
}
void lib(const std::function<void()>& f, const char *name)
{
	m->out = printed();
	m->inInit = true;
	bool threw = false;
	std::string how;
	how.reserve(100);
	arm((int)m->st->u(4), (long)m->st->u(5));
	try {
		f();
	} catch (std::exception& e) {
		alloc::off();
		sys::off();
		threw = true;
		how = std::string(e.what()).substr(0, 90);
	}
	alloc::off();
	sys::off();
	m->inInit = false;
	countFaults();
	if (threw && !fired()) bad("failed", std::string(name) + " failed without a fault: " + how);
	stat(threw ? "init-exception" : "init-ok");
	cover(strf("%s %d %d %d %d %d", name, (int)m->st->u(4), m->st->u(4) == 7 ? 0 : (int)m->st->u(5), (int)threw, (int)m->ready, (int)(fired() > 0)));
	ev(how.empty() ? "ok" : how);
	if (!strcmp(name, "init")) m->ready = !threw;
}
void work(u64 seed) { selfTest(m->b, seed, bad); m->works++; stat("works"); }
void exec(const Plan& p)
{
	Mach mach;
	mach.ready = mach.inInit = mach.expectExit = mach.faulted = false;
	mach.works = 0;
	mach.b = cfgOf(p).b;
	m = &mach;
	on_exit(onExit, 0);
	const int cv = (int)p.hu("cpuvendor"), cb = (int)p.hu("cpubmi2", 1), cm = (int)p.hu("cpumodel");
	if (cv || !cb || cm) {
		if (cpu::simulate(cv, cb, cm)) stat("fault.cpu-simulated");
	}
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		m->st = &st;
		setStep(s);
		const std::string& o = st.op();
		m->what = strf("step %d ", (int)s) + o;
		for (size_t j = 1; j < st.n(); j++) m->what += " " + st.s(j);
		if (o == "garbage") { poisonBelow(st.u(1), 48 << 10); alloc::poison = (unsigned char)st.u(1); stat("fault.garbage"); continue; }
		if (o == "init") { // init b mode mulx fault n
			Cfg c;
			c.b = SNARK ? (st.i(1) == 82 ? 82 : 3) : 2;
			c.mode = (int)st.i(2);
			c.mulx = (int)st.i(3);
			const int kind = (int)st.u(4);
			const bool viaDefault = !SNARK && c.mode == -1 && c.mulx && (st.u(5) & 1);
			lib([&] { if (viaDefault) bn::Param::init(); else initLib(c); }, "init");
			if (kind == 0 && !m->ready) bad("failed", "initialization failed without a fault");
			if (m->ready) { m->b = c.b; work(s + p.seed); }
			continue;
		}
		if (o == "zm") { // the big integers alone
			lib([] { mie::zmInit(); }, "zm");
			Rng r(s);
			Z u = genWords(r, 8), v = genWords(r, 4) + 1;
			mie::Vuint U = vuint(u), V = vuint(v);
			if (val(U / V) != u / v || val(U % V) != u % v || val(V * V) != v * v) bad("wrong-value", "Vuint");
			continue;
		}
		if (o == "unsupported") { // must be refused
#ifdef BN_SUPPORT_SNARK
			const bn::CurveParam org = bn::CurveSNARK1;
#else
			const bn::CurveParam org = bn::CurveFp254BNb;
#endif
			bn::CurveParam c = org;
			if (c != org || !(c == org)) bad("wrong-value", "equal parameters compare as different");
			switch (st.u(1) % 4) {
			case 0: c.z++; break;
			case 1: c.b = SNARK ? 5 : 3; break;
			case 2: c.xi_a += 2; break;
			default: c.xi_b = 7; break;
			}
			if (SNARK && st.u(1) % 4 != 1) { c.b = 3; c.xi_b = 2; }
			if (!(c != org) || c == org) bad("wrong-value", "different parameters compare as equal");
			m->expectExit = true;
			m->inInit = true;
			m->out = printed();
			bool threw = false;
			clearFired();
			try { bn::Param::init(c, (int)st.i(2)); } catch (std::exception&) { threw = true; }
			if (!threw) bad("accepted", "parameters which are not supported were accepted");
			m->inInit = m->expectExit = false;
			stat("unsupported-exception");
			if (m->ready) work(s + p.seed);
			continue;
		}
		if (o == "work" && m->ready) work(st.u(1));
	}
	if (m->faulted) nontrivial();
	sample(strf("%d self tests, last: ", m->works) + m->what);
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	if (r.chance(1, 3)) {
		p.set("cpuvendor", r.below(3));
		p.set("cpubmi2", r.below(2));
		static const int models[] = { 0, 0x2a, 0x2d, 0x1a, 0x9e };
		p.set("cpumodel", models[r.below(5)]);
	}
	int len = (int)r.range(1, thorough ? 12 : 6);
	const int pf = (int)r.range(1, 4);
	for (int i = 0; i < len; i++) {
		if (r.chance(1, 10)) p.add(StepB("garbage")(r.below(1000)));
		u64 c = r.below(20);
		if (c == 0) { p.add(StepB("unsupported")(r.below(4))((int)r.below(3) - 1)); continue; }
		static const int kinds[] = { 1, 1, 1, 2, 2, 3, 3, 4, 5, 5, 5, 5, 6, 6, 7 };
		int kind = r.below(4) < (u64)pf ? kinds[r.below(15)] : 0;
		int n = kind == 7 ? (int)r.range(1, 126) : kind <= 2 ? (int)r.range(1, r.chance(1, 2) ? 4 : 30) : (int)r.range(1, 5);
		if (c == 1) { p.add(StepB("zm")(0)(0)(0)(kind)(n)); continue; }
		if (c == 2) { p.add(StepB("work")(r.next() >> 16)); continue; }
		p.add(StepB("init")(SNARK ? (r.chance(1, 2) ? 3 : 82) : 2)((int)r.below(3) - 1)((int)r.below(2))(kind)(n));
	}
	p.add(StepB("init")(SNARK ? (r.chance(1, 2) ? 3 : 82) : 2)((int)r.below(3) - 1)((int)r.below(2))(0)(r.below(2)));
	p.add(StepB("work")(r.next() >> 16));
}
void prep(const Plan& p)
{
	if (SNARK) { M::init(true, 3); M::baseGT(); M::init(true, 82); M::baseGT(); }
	initModel(p);
	M::baseGT();
}
World w("init", gen, exec, prep);
}
