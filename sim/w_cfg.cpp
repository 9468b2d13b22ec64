// C07: one history executed by several processes, each with its own code generation mode, processor, garbage and
// history of initializations; the results have to be bit-identical, and of the curve selected.
#include "catalog.h"
#include "selftest.h"
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <new>
using namespace cat;
extern "C" char __executable_start, etext;

namespace {
typedef std::vector<std::string> Outs;
struct Node { int b, mode, mulx, vendor, bmi2, model; u64 garbage; };
struct Mach {
	const Plan *p;
	int n, me, b;
	Node node[6];
	WS *ws, *scratch;
	std::string what;
	size_t nops;
} *m;
WS *newWS(u64 at)
{
	void *p = mmap((void *)at, (sizeof(WS) + 4095) & ~4095UL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED) violate("harness-error", "mmap");
	return new (p) WS;
}
// ---- instructions the simulated processor does not have
volatile int s_forbidden;
volatile u64 s_steps;
inline void trapFlag() { asm volatile("pushfq; orq $0x100, (%%rsp); popfq" : : : "memory", "cc"); }
bool isBmi2(const unsigned char *i)
{
	if (i[0] == 0xc4 && (i[1] & 0x1f) == 2 && (i[3] == 0xf6 || i[3] == 0xf5 || i[3] == 0xf7) ) return true; // mulx, bzhi/pdep/pext, shlx/sarx/shrx
	if (i[0] == 0xc4 && (i[1] & 0x1f) == 3 && i[3] == 0xf0) return true; // rorx
	if (i[0] == 0x66 || i[0] == 0xf3) { // adcx, adox
		int k = (i[1] & 0xf0) == 0x40 ? 2 : 1;
		if (i[k] == 0x0f && i[k + 1] == 0x38 && i[k + 2] == 0xf6) return true;
	}
	return false;
}
void onTrap(int, siginfo_t *, void *c)
{
	greg_t *g = ((ucontext_t *)c)->uc_mcontext.gregs;
	const u64 ip = (u64)g[REG_RIP];
	bool in = ip >= (u64)&__executable_start && ip < (u64)&etext;
	for (int i = 0; i < sys::nExec; i++) if (ip >= sys::execLo[i] && ip < sys::execHi[i]) in = true;
	if (in && isBmi2((const unsigned char *)ip)) s_forbidden = 1;
	if (++s_steps > 20000) g[REG_EFL] &= ~0x100LL;
}
// ---- one operation
bool ready(const Op *o, const int *a)
{
	if (!o) return false;
	for (size_t j = 0; j < strlen(o->sig); j++) if (a[j] < 0 || a[j] >= limit(o->sig[j])) return false;
	return true;
}
std::string run(const Op& o, WS *w, const int *a, u64 imm, bool step)
{
	Ctx c;
	c.own = w;
	c.sh = 0;
	memcpy(c.a, a, sizeof c.a);
	c.imm = imm;
	std::string err;
	if (step) { s_steps = 0; trapFlag(); }
	cat::exec(o, c, err);
	if (step) asm volatile("pushfq; andq $~0x100, (%%rsp); popfq" : : : "memory", "cc");
	return snapshot(o, c);
}
void randomOps(u64 seed, int n, WS *w)
{
	Rng r(seed);
	fill(*w, r.next() >> 16);
	for (int i = 0; i < n; i++) {
		const Op& o = r.pick(ops());
		if (o.weight == 2 && !r.chance(1, 4)) continue;
		int a[5] = { 0, 0, 0, 0, 0 };
		for (size_t j = 0; j < strlen(o.sig); j++) a[j] = (int)r.below(limit(o.sig[j]));
		run(o, w, a, r.next() >> 8, false);
	}
}
void select(int b, int mode, int mulx)
{
	B::Cfg c = { b, mode, mulx };
	M::init(B::SNARK, b);
	B::initLib(c);
}
const char KINDS[] = "fdghkpqvszt";
void finalState(Outs& o, const WS& w)
{
	for (const char *k = KINDS; *k; k++) for (int i = 0; i < limit(*k); i++) o.push_back(strf("%c%d\n%c\n", *k, i, *k) + raw(w, *k, i) + "\n");
}
void params(Outs& o)
{
	typedef bn::Param Q;
	std::ostringstream os;
	os << Q::p << ' ' << Q::r << ' ' << Q::t << ' ' << Q::z << ' ' << Q::largest_c << ' ' << Q::b << ' ' << Q::Z << ' ' << Q::half << ' ' << Q::i0 << ' ' << Q::i1 << ' ' << Q::b_invxi << ' ' << Q::W2p << ' ' << Q::W3p;
	for (int i = 0; i < 5; i++) os << ' ' << Q::gammar[i] << ' ' << Q::gammar2[i] << ' ' << Q::gammar3[i];
	o.push_back("constants\nc\n\n" + os.str());
}
Outs *s_out;
void selfBad(const std::string& cls, const std::string& what)
{
	(void)cls;
	s_out->push_back("SELFTEST" + what);
}
Outs history()
{
	const Plan& p = *m->p;
	const Node& nd = m->node[m->me];
	Outs out;
	s_out = &out;
	out.reserve(p.steps.size() + 60);
	if (nd.vendor || !nd.bmi2 || nd.model) cpu::simulate(nd.vendor, nd.bmi2, nd.model);
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onTrap;
	sa.sa_flags = SA_SIGINFO;
	sigaction(SIGTRAP, &sa, 0);
	alloc::poison = (unsigned char)nd.garbage;
	// initializations before
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		if (st.op() != "before" || (int)st.u(1) != m->me) continue;
		select((int)st.i(2), (int)st.i(3), (int)st.i(4));
		Zm::setModulo(bn::Param::r);
		randomOps(st.u(6), (int)st.u(5), m->scratch);
	}
	select(nd.b, nd.mode, nd.mulx);
	Zm::setModulo(bn::Param::r);
	fill(*m->ws, p.hu("values"));
	params(out);
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		if (st.op() == "garbage" && (int)st.u(1) == m->me) { poisonBelow(st.u(2), 48 << 10); alloc::poison = (unsigned char)st.u(2); continue; }
		if (st.op() == "reinit" && (int)st.u(1) == m->me) { // reinit node b mode mulx ops seed mode mulx
			select((int)st.i(2), (int)st.i(3), (int)st.i(4));
			randomOps(st.u(6), (int)st.u(5), m->scratch);
			select(nd.b, (int)st.i(7), (int)st.i(8));
			continue;
		}
		if (st.op() == "test") {
			B::selfTest(nd.b, st.u(1), selfBad);
			continue;
		}
		if (st.op() == "const") { params(out); continue; }
		if (st.op() == "load" || st.op() == "pair") {
			const std::string k = st.s(1);
			const bool two = st.op() == "pair";
			if (k.size() != 1 || !strchr("fdghkpqvs", k[0]) || st.u(2) >= (u64)limit(k[0]) || (two && (st.u(3) >= (u64)limit(k[0]) || st.u(3) == st.u(2)))) continue;
			if (two) cat::pair(*m->ws, k[0], (int)st.u(2), (int)st.u(3), st.u(4)); else cat::load(*m->ws, k[0], (int)st.u(2), st.u(3));
			continue;
		}
		if (st.op() != "op") continue;
		const Op *o = find(st.s(1));
		int a[5];
		for (int j = 0; j < 5; j++) a[j] = (int)st.u(2 + j);
		if (!ready(o, a)) continue;
		out.push_back(run(*o, m->ws, a, st.u(7), !nd.bmi2 && st.u(8)));
		if (s_forbidden) { out.push_back(std::string("FORBIDDEN") + o->name); s_forbidden = 0; }
	}
	finalState(out, *m->ws);
	return out;
}
Outs inProcess(int me)
{
	int fd[2];
	if (pipe(fd)) violate("harness-error", "pipe");
	pid_t pid = fork();
	if (pid < 0) violate("harness-error", "fork");
	if (pid == 0) {
		close(fd[0]);
		m->me = me;
		Outs o = history();
		std::string s;
		for (size_t i = 0; i < o.size(); i++) { u64 n = o[i].size(); s.append((const char *)&n, 8); s += o[i]; }
		for (size_t i = 0; i < s.size();) { ssize_t k = write(fd[1], s.data() + i, s.size() - i); if (k <= 0) _exit(3); i += k; }
		_exit(0);
	}
	close(fd[1]);
	std::string s;
	char b[65536];
	ssize_t k;
	while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	Outs o;
	for (size_t i = 0; i + 8 <= s.size();) { u64 n; memcpy(&n, s.data() + i, 8); o.push_back(s.substr(i + 8, n)); i += 8 + n; }
	if (st) o.push_back(strf("STATUS%x", st));
	return o;
}
std::string about(int i)
{
	const Node& d = m->node[i];
	std::string s = strf("node %d (b=%d mode=%d mulx=%d vendor=%d bmi2=%d model=%x", i, d.b, d.mode, d.mulx, d.vendor, d.bmi2, d.model);
	int k = 0;
	for (size_t j = 0; j < m->p->steps.size(); j++) if (m->p->steps[j].n() > 1 && (m->p->steps[j].op() == "reinit" || m->p->steps[j].op() == "before") && (int)m->p->steps[j].u(1) == i) k++;
	return s + strf(", %d more initializations)", k);
}
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	m->p = &p;
	m->n = 0;
	m->b = (int)p.hi("b", 2);
	for (int i = 0; i < 6; i++) {
		std::string h = p.hs(strf("node%d", i).c_str());
		if (h.empty()) break;
		std::istringstream is(h);
		Node& d = m->node[m->n];
		is >> d.mode >> d.mulx >> d.vendor >> d.bmi2 >> d.model >> d.garbage;
		d.b = m->b;
		m->n++;
	}
	m->ws = newWS(0x619000000000ULL);
	m->scratch = newWS(0x61a000000000ULL);
	m->nops = 0;
	int resets = 0;
	for (size_t s = 0; s < p.steps.size(); s++) {
		const std::string& o = p.steps[s].op();
		if (o == "op") {
			m->nops++;
			for (int i = 0; i < m->n; i++) if (!m->node[i].bmi2 && p.steps[s].u(8)) stat("ops-single-stepped");
		}
		if (o == "garbage") stat("fault.garbage");
		if (o == "reinit" || o == "before") { resets++; stat("fault.reinit"); if ((int)p.steps[s].i(2) != m->b) stat("fault.other-curve"); }
	}
	std::vector<Outs> all;
	std::string modes;
	for (int i = 0; i < m->n; i++) {
		Node& d = m->node[i];
		if (d.vendor || !d.bmi2 || d.model) stat("fault.cpu-simulated");
		stat(strf("nodes-mode%d-mulx%d", d.mode, d.mulx && d.bmi2));
		modes += strf(" %d.%d.%d.%d.%x", d.mode, d.mulx, d.vendor, d.bmi2, d.model);
		all.push_back(inProcess(i));
		Outs& o = all.back();
		Outs clean;
		for (size_t j = 0; j < o.size(); j++) {
			if (o[j].compare(0, 8, "SELFTEST") == 0) violate("wrong-curve", about(i) + ": " + o[j].substr(8) + " does not agree with the model");
			if (o[j].compare(0, 9, "FORBIDDEN") == 0) violate("instruction", about(i) + ": " + o[j].substr(9) + " executes an instruction the processor does not have");
			if (o[j].compare(0, 6, "STATUS") == 0) violate("node-failed", about(i) + strf(" ended with status %s after %d results", o[j].c_str() + 6, (int)j));
			clean.push_back(o[j]);
		}
		o.swap(clean);
	}
	for (int i = 1; i < m->n; i++) {
		if (all[i].size() != all[0].size()) violate("harness-error", "number of results");
		for (size_t j = 0; j < all[i].size(); j++) {
			const std::string &x = all[0][j], &y = all[i][j];
			if (x == y) continue;
			// an unreduced double width value is compared by what it stands for
			if (x.size() > 2 && x[x.find('\n') + 1] == 'd' && sameValue(x, y)) continue;
			violate("configuration", about(0) + ": " + show(x) + " but " + about(i) + ": " + show(y));
		}
	}
	for (size_t j = 0; j < all[0].size(); j++) evBytes("r", all[0][j].data(), all[0][j].size());
	if (m->nops >= 2 && m->n >= 2) nontrivial();
	stat("ops", m->nops);
	std::string l;
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		if (st.op() == "op") { for (int i = 1; i < m->n; i++) cover(st.s(1) + strf(" %d %d %d %d %d", m->node[i].mode, m->node[i].mulx, m->node[i].bmi2, m->node[i].vendor, resets)); l += " " + st.s(1); }
	}
	sample("nodes" + modes + strf(", %d further initializations:", resets) + l.substr(0, 400));
}
void gen(Rng& r, Plan& p, bool thorough)
{
	B::genCfg(r, p);
	const int b = (int)p.hi("b", 2);
	p.set("values", r.next() >> 16);
	const int n = (int)r.range(2, 4);
	for (int i = 0; i < n; i++) {
		int vendor = 0, bmi2 = 1, model = 0;
		static const int models[] = { 0, 0x2a, 0x2d, 0x1a, 0x9e };
		if (r.chance(1, 3)) { vendor = (int)r.below(3); bmi2 = (int)r.below(2); model = models[r.below(5)]; }
		p.set(strf("node%d", i).c_str(), strf("%d %d %d %d %d %d", (int)r.below(3) - 1, (int)r.below(2), vendor, bmi2, model, (int)r.below(256)));
	}
	const int nb = B::SNARK ? 85 - b : b;
	// initializations before the history
	for (int i = 1; i < n; i++) for (int k = r.chance(1, 3) ? (int)r.range(1, 3) : 0; k > 0; k--)
		p.add(StepB("before")(i)(r.chance(1, 2) ? nb : b)((int)r.below(3) - 1)((int)r.below(2))((int)r.below(12))(r.next() >> 16));
	const int len = (int)r.range(4, thorough ? 120 : 50), heavy = (int)r.below(8), re = (int)r.below(6), same = (int)r.below(4), fresh = (int)r.below(4);
	const int set = r.chance(1, 3) ? (int)r.range(1, 12) : 0;
	std::vector<const Op *> use;
	while ((int)use.size() < set) use.push_back(&r.pick(ops()));
	for (int i = 0; i < len; i++) {
		if (r.below(100) < (u64)re) p.add(StepB("reinit")(r.range(1, n - 1))(r.chance(1, 2) ? nb : b)((int)r.below(3) - 1)((int)r.below(2))((int)r.below(8))(r.next() >> 16)((int)r.below(3) - 1)((int)r.below(2)));
		if (r.chance(1, 16)) p.add(StepB("garbage")(r.below(n))(r.below(1000)));
		if (r.chance(1, 200)) p.add(StepB("test")(r.next() >> 16));
		if (r.chance(1, 100)) p.add(StepB("const"));
		const Op& o = set ? *r.pick(use) : r.pick(ops());
		if (o.weight == 2 && r.below(12) >= (u64)heavy) continue;
		StepB s("op");
		s(o.name);
		int a[5] = { 0, 0, 0, 0, 0 };
		const size_t n = strlen(o.sig);
		for (size_t j = 0; j < n && j < 5; j++) a[j] = r.chance(same, 8) ? 0 : (int)r.below(limit(o.sig[j]));
		if (n && fresh && r.chance(fresh, 5)) {
			int i1 = -1, i2 = -1;
			for (size_t j = 0; j < n; j++) for (size_t q = j + 1; q < n; q++) if ((o.sig[j] | 32) == (o.sig[q] | 32) && a[j] != a[q] && (i1 < 0 || j)) { i1 = (int)j; i2 = (int)q; }
			if (i1 >= 0 && r.chance(4, 5)) p.add(StepB("pair")(std::string(1, (char)(o.sig[i1] | 32)))(a[i1])(a[i2])(r.next() >> 16));
			else { const size_t j = n > 1 ? r.range(1, n - 1) : 0; p.add(StepB("load")(std::string(1, (char)(o.sig[j] | 32)))(a[j])(r.next() >> 16)); }
		}
		for (size_t j = 0; j < 5; j++) s(a[j]);
		s(r.next() >> 8)(o.weight == 0 && r.chance(1, 16) ? 1 : 0);
		p.add(s);
	}
	if (r.chance(1, 4)) p.add(StepB("test")(r.next() >> 16));
}
void prep(const Plan& p)
{
	if (B::SNARK) { M::init(true, 3); M::baseGT(); cat::prepare(); M::init(true, 82); M::baseGT(); cat::prepare(); }
	B::initModel(p);
	M::baseGT();
	cat::prepare();
}
World w("cfg", gen, exec, prep);
}
