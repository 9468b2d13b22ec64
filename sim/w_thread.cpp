// C01, C02: threads under a simulated scheduler, compared with the same programs run alone.
#include "catalog.h"
#include "simthr.h"
#include <string.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <new>
#include <sstream>
#include <stdexcept>
using namespace cat;

namespace {
typedef std::vector<std::string> Outs;
struct Item { const Op *o; int tid, a[5]; u64 imm; size_t step; std::vector<sched::Pre> pre; };
struct Mach {
	int n;
	WS *own[sched::MAXT], *sh;
	std::vector<Item> prog[sched::MAXT];
	Outs outs[sched::MAXT];
	bool solo;
} *m;
WS *newWS(u64 at)
{
	void *p = mmap((void *)at, (sizeof(WS) + 4095) & ~4095UL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	if (p == MAP_FAILED) violate("harness-error", "mmap");
	return new (p) WS;
}
void body(int tid)
{
	std::vector<Item>& v = m->prog[tid];
	Outs& out = m->outs[tid];
	out.reserve(v.size());
	const std::vector<sched::Pre> none;
	for (size_t i = 0; i < v.size(); i++) {
		Item& it = v[i];
		if (!m->solo) setStep(it.step);
		Ctx c;
		c.own = m->own[tid];
		c.sh = m->sh;
		memcpy(c.a, it.a, sizeof c.a);
		c.imm = it.imm;
		std::string err;
		sched::begin(m->solo ? none : it.pre);
		cat::exec(*it.o, c, err);
		sched::end();
		out.push_back(snapshot(*it.o, c));
	}
}
const char KINDS[] = "fdghkpqvszt";
void finalState(Outs& o, const WS& w)
{
	for (const char *k = KINDS; *k; k++) for (int i = 0; i < limit(*k); i++) o.push_back(strf("%c%d\n%c\n", *k, i, *k) + raw(w, *k, i) + "\n");
}
void sendAll(int fd, const Outs& o)
{
	std::string s;
	for (size_t i = 0; i < o.size(); i++) { u64 n = o[i].size(); s.append((const char *)&n, 8); s += o[i]; }
	for (size_t i = 0; i < s.size();) { ssize_t k = write(fd, s.data() + i, s.size() - i); if (k <= 0) _exit(3); i += k; }
}
// the program of one thread, alone in a process of its own
Outs solo(int tid)
{
	int fd[2];
	if (pipe(fd)) violate("harness-error", "pipe");
	pid_t pid = fork();
	if (pid < 0) violate("harness-error", "fork");
	if (pid == 0) {
		close(fd[0]);
		m->solo = true;
		for (int i = 0; i < m->n; i++) if (i != tid) m->prog[i].clear();
		sched::run(tid, tid + 1, body);
		Outs& o = m->outs[tid];
		finalState(o, *m->own[tid]);
		sendAll(fd[1], o);
		_exit(0);
	}
	close(fd[1]);
	std::string s;
	char b[65536];
	ssize_t k;
	while ((k = read(fd[0], b, sizeof b)) > 0) s.append(b, k);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	if (st) violate("solo-failed", strf("thread %d alone ended with status %x", tid, st));
	Outs o;
	for (size_t i = 0; i + 8 <= s.size();) { u64 n; memcpy(&n, s.data() + i, 8); o.push_back(s.substr(i + 8, n)); i += 8 + n; }
	return o;
}
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	m->n = (int)p.hu("threads", 2);
	if (m->n > sched::MAXT) m->n = sched::MAXT;
	m->solo = false;
	const bool shared = p.hu("shared") != 0;
	B::initLib(p);
	Zm::setModulo(bn::Param::r);
	m->sh = newWS(0x618000000000ULL);
	fill(*m->sh, p.hu("values"));
	for (int i = 0; i < m->n; i++) { m->own[i] = newWS(0x619000000000ULL + i * 0x100000ULL); fill(*m->own[i], p.hu("values") + 1 + i); }
	for (int k = shared ? -1 : 0; k < m->n; k++) {
		WS& w = k < 0 ? *m->sh : *m->own[k];
		for (int i = 0; i < NZ; i++) w.z[i].set(w.v[i]);
		if (p.hu("tables")) for (int i = 0; i < NT; i++) if (!w.q[i].isZero()) bn::components::precomputeG2(w.t[i], w.tq[i], w.q[i].p);
	}
	Outs before;
	finalState(before, *m->sh);
	Item *last = 0;
	size_t nops = 0;
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		if (st.op() == "pre") {
			if (!last) continue;
			sched::Pre q = { st.s(1)[0], st.u(2), st.u(3), (int)st.u(4) };
			last->pre.push_back(q);
			continue;
		}
		if (st.op() != "op") continue;
		last = 0;
		Item it;
		it.tid = (int)st.u(1);
		it.o = find(st.s(2));
		if (!it.o || it.tid >= m->n) continue;
		bool ok = true;
		for (int j = 0; j < 5; j++) it.a[j] = (int)st.u(3 + j);
		for (size_t j = 0; j < strlen(it.o->sig); j++) {
			int a = it.a[j];
			if (a >= 8) { a -= 8; if (j == 0 && it.o->sig[0] >= 'a') ok = false; if (!shared) ok = false; }
			if (a >= limit(it.o->sig[j])) ok = false;
		}
		if (!ok) continue;
		it.imm = st.u(8);
		it.step = s;
		m->prog[it.tid].push_back(it);
		last = &m->prog[it.tid].back();
		nops++;
	}
	std::vector<Outs> alone;
	for (int i = 0; i < m->n; i++) alone.push_back(solo(i));
	if (shared) sched::share(m->sh, (sizeof(WS) + 4095) & ~4095UL);
	sched::run(0, m->n, body);
	sched::unshare();
	stat("ops", nops);
	stat("accesses", sched::accesses);
	stat("instructions-stepped", sched::instr);
	stat("shared-accesses", sched::interesting);
	const std::string how = " with the schedule " + (sched::log.empty() ? "(none)" : sched::log);
	for (int i = 0; i < m->n; i++) {
		Outs o = m->outs[i];
		finalState(o, *m->own[i]);
		if (o.size() != alone[i].size()) violate("harness-error", "number of results");
		for (size_t j = 0; j < o.size(); j++) {
			evBytes("r", o[j].data(), o[j].size());
			if (o[j] == alone[i][j] || sameValue(o[j], alone[i][j])) continue;
			violate("thread-influenced", strf("thread %d, %s %d: ", i, j < m->prog[i].size() ? "operation" : "object", (int)j) + show(o[j]) + " but alone: " + show(alone[i][j]) + how);
		}
	}
	Outs after;
	finalState(after, *m->sh);
	for (size_t j = 0; j < after.size(); j++) {
		if (after[j] == before[j] || sameValue(after[j], before[j])) continue;
		violate("shared-operand-changed", show(after[j]) + " was " + show(before[j]) + how);
	}
	ev("order", sched::order);
	if (sched::switches) { nontrivial(); cover(sched::order); }
	stat("switches", sched::switches);
	sample(strf("%d threads, %d operations%s", m->n, (int)nops, how.c_str()));
}
// ---- which operations touch memory of the whole process: run each alone, once, and record its accesses. What they
// write or read of it makes the search prefer them; on a tree where none does, nothing is preferred.
struct Touch { sched::Watch t[2]; bool data, sharedData; };
struct Prof { std::vector<Touch> touch; WS *ws[2], *sh; int round; } *pf;
std::string dataPage()
{
	std::string s(4096, 0);
	int fd[2];
	if (pipe(fd)) return "";
	if (write(fd[1], (const void *)((u64)bn::Fp::halfTbl_ & ~4095UL), 4096) != 4096 || read(fd[0], &s[0], 4096) != 4096) s.clear();
	close(fd[0]);
	close(fd[1]);
	return s;
}
extern "C" char __data_start, _end;
std::vector<u64> statics()
{
	const u64 *a = (const u64 *)(((u64)&__data_start + 7) & ~7UL), *b = (const u64 *)((u64)&_end & ~7UL);
	return std::vector<u64>(a, b);
}
// words the simulator itself changes
void noise(Ctx& c)
{
	std::ostringstream os;
	os << std::string(100, 'x') << 12345;
	try { throw std::runtime_error(os.str()); } catch (std::exception& e) { c.text = e.what(); }
	delete new int;
}
std::vector<bool> s_noise;
std::string sharedObjects() { return std::string((const char *)pf->sh, sizeof(WS)); }
void profileBody(int tid)
{
	const std::vector<sched::Pre> none;
	sched::Watch junk;
	junk.guards = 0;
	const Op nop = { "noise", "", 0, noise };
	if (s_noise.empty()) s_noise.resize(statics().size());
	for (size_t i = 0; i <= ops().size(); i++) {
		const Op& o = i ? ops()[i - 1] : nop;
		for (int k = 0; k < 5; k++) {
			Ctx c;
			c.own = pf->ws[tid];
			c.sh = pf->sh;
			for (int j = 0; j < 5; j++) {
				const char kind = j < (int)strlen(o.sig) ? (char)(o.sig[j] | 32) : 't';
				c.a[j] = (k + j + pf->round) % limit(kind);
				if ((j > 0 || o.sig[0] < 'a') && j < (int)strlen(o.sig) && k % 2 == 0) c.a[j] += 8;
			}
			c.imm = Rng(i * 64 + k * 4 + tid * 2 + pf->round + 1).next() >> 8;
			std::string err;
			const std::string d = dataPage(), s = sharedObjects();
			const std::vector<u64> st = statics();
			sched::begin(none);
			sched::watch(i ? &pf->touch[i - 1].t[tid] : &junk);
			cat::exec(o, c, err);
			sched::watch(0);
			sched::end();
			const std::vector<u64> now = statics();
			if (!i) {
				for (size_t j = 0; j < st.size(); j++) if (st[j] != now[j]) s_noise[j] = true;
				continue;
			}
			Touch& t = pf->touch[i - 1];
			if (d != dataPage()) t.data = true;
			if (k) for (size_t j = 0; j < st.size(); j++) if (st[j] != now[j] && !s_noise[j]) t.data = true; // not the first call: it may initialize
			if (s != sharedObjects()) t.sharedData = true;
		}
	}
}
// 'w': writes, 'j': writes memory of generated code, 'c': changes shared objects, 'r': reads what one writes
std::string profile()
{
	int fd[2];
	if (pipe(fd)) return "";
	pid_t pid = fork();
	if (pid < 0) return "";
	if (pid == 0) {
		close(fd[0]);
		alarm(60);
		alloc::leak = true;
		Plan p;
		p.set("b", B::SNARK ? 3 : 2);
		p.set("mode", 0);
		p.set("mulx", 1);
		B::initModel(p);
		cat::prepare();
		Prof f;
		pf = &f;
		f.touch.resize(ops().size());
		for (size_t i = 0; i < f.touch.size(); i++) { f.touch[i].data = f.touch[i].sharedData = false; for (int j = 0; j < 2; j++) f.touch[i].t[j].guards = 0; }
		Touch *t = &f.touch[0];
		f.sh = newWS(0x618000000000ULL);
		for (int i = 0; i < 2; i++) f.ws[i] = newWS(0x619000000000ULL + i * 0x100000ULL);
		std::string out(ops().size() * 3, '-');
		for (f.round = 0; f.round < 2; f.round++) {
			p.set("mode", f.round ? 1 : 0);
			// each round in a process of its own: nothing of the first calls is seen by the second
			int rd[2];
			if (pipe(rd)) _exit(1);
			pid_t q = fork();
			if (q < 0) _exit(1);
			if (q == 0) {
				alarm(60);
				B::initLib(p);
				Zm::setModulo(bn::Param::r);
				fill(*f.sh, 101);
				for (int i = 0; i < NZ; i++) f.sh->z[i].set(f.sh->v[i]);
				for (int i = 0; i < NT; i++) if (!f.sh->q[i].isZero()) bn::components::precomputeG2(f.sh->t[i], f.sh->tq[i], f.sh->q[i].p);
				for (int i = 0; i < 2; i++) fill(*f.ws[i], 102 + i);
				sched::Watch none;
				none.guards = 0;
				sched::watch(&none);
				sched::share(f.sh, (sizeof(WS) + 4095) & ~4095UL);
				sched::watch(0);
				sched::run(0, 2, profileBody);
				std::string o(ops().size() * 3, '-');
				std::unordered_set<u64> all;
				for (size_t i = 0; i < ops().size(); i++) {
					for (int k = 0; k < 2; k++) {
						for (u64 x : t[i].t[k].wr) {
							const u64 a = x << 3;
							const bool vis = (a >= (u64)&__data_start && a < (u64)&_end);
							const bool sh = a >= (u64)f.sh && a < (u64)f.sh + sizeof(WS);
							if (sh) o[i * 3 + 1] = 'c';
							else if (!vis && !t[i].t[1 - k].wr.count(x)) continue; // memory of its own
							else o[i * 3] = 'w';
							all.insert(x);
						}
					}
					if (t[i].data) o[i * 3] = 'j';
					if (t[i].sharedData) o[i * 3 + 1] = 'c';
				}
				for (size_t i = 0; i < ops().size(); i++) for (int k = 0; k < 2; k++) for (u64 x : t[i].t[k].rd) if (all.count(x)) o[i * 3 + 2] = 'r';
				if (write(rd[1], o.data(), o.size()) != (ssize_t)o.size()) _exit(1);
				_exit(0);
			}
			close(rd[1]);
			std::string o(ops().size() * 3, '-');
			if (read(rd[0], &o[0], o.size()) == (ssize_t)o.size()) for (size_t i = 0; i < o.size(); i++) if (o[i] != '-' && (out[i] == '-' || out[i] == 'j')) out[i] = o[i];
			close(rd[0]);
			waitpid(q, 0, 0);
		}
		if (write(fd[1], out.data(), out.size())) {}
		_exit(0);
	}
	close(fd[1]);
	std::string s(ops().size() * 3, '-');
	if (read(fd[0], &s[0], s.size()) != (ssize_t)s.size()) s.clear();
	close(fd[0]);
	waitpid(pid, 0, 0);
	return s;
}
const std::string& hot() { static const std::string s = profile(); return s; }
u64 logUniform(Rng& r, int bits) { int b = (int)r.below(bits + 1); return 1 + r.below(1ULL << b); }
void gen(Rng& r, Plan& p, bool thorough, bool shared)
{
	B::genCfg(r, p);
	if (r.chance(1, 2)) p.set("mode", 0); // everything in C++ code
	p.set("values", r.next() >> 16);
	p.set("shared", shared);
	const int n = r.chance(2, 3) ? 2 : (int)r.range(2, sched::MAXT);
	p.set("threads", n);
	std::vector<const Op *> hotW, hotR;
	bool jit = false;
	for (size_t i = 0; i * 3 < hot().size(); i++) {
		const char *f = &hot()[i * 3];
		if (f[0] == 'w' || f[0] == 'j' || (shared && f[1] == 'c')) hotW.push_back(&ops()[i]);
		if (f[0] == 'j') jit = true;
		if (f[2] == 'r') hotR.push_back(&ops()[i]);
	}
	const bool useHot = !hotW.empty() && r.chance(3, 4);
	// all threads repeat one operation on the same objects
	const bool repeat = r.chance(useHot ? 2 : 1, 4);
	if (useHot && jit && r.chance(1, 2)) p.set("mode", 1);
	bool tables = r.chance(1, shared ? 4 : 10);
	int len = (int)r.range(1, thorough ? 8 : 5);
	// all threads run the same operations, or operations of a small set
	const int set = repeat || r.chance(1, 2) ? 1 : (int)r.range(1, 8);
	const bool heavy = r.chance(1, thorough ? 3 : 6) || tables;
	std::vector<const Op *> use;
	if (useHot) use.push_back(r.pick(hotW));
	if (useHot && set > 1 && !hotR.empty() && r.chance(3, 4)) use.push_back(r.pick(hotR));
	while ((int)use.size() < set) {
		const Op& o = r.pick(ops());
		if (o.weight == 2 && !heavy) continue;
		if (heavy && use.empty() && o.weight < 2 && r.chance(3, 4)) continue;
		if (tables && use.empty() && !strchr(o.sig, 't') && r.chance(3, 4)) continue;
		if (shared && strlen(o.sig) < 2 && o.sig[0] >= 'a') continue;
		use.push_back(&o);
	}
	for (size_t i = 0; i < use.size(); i++) if (strstr(use[i]->sig, "t") && strncmp(use[i]->name, "table", 5) == 0) tables = tables || shared || r.chance(3, 4);
	p.set("tables", tables);
	if (repeat && len < 3) len = 3;
	if (heavy && len > 3) len = 3;
	const int share = shared ? (int)r.range(5, 10) : 0, same = (int)r.below(4);
	const int npre = (int)r.range(1, 4), style = useHot && !jit && r.chance(1, 2) ? 0 : (int)r.below(5);
	const u64 im = r.next() >> 8;
	std::map<char, int> fav;
	for (const char *k = KINDS; *k; k++) fav[*k] = (int)r.below(limit(*k));
	for (int i = 0; i < len; i++) {
		for (int t = 0; t < n; t++) {
			const Op& o = *use[i == 0 && set > 1 && r.chance(1, 2) ? 0 : r.below(use.size())];
			StepB b("op");
			b(t)(o.name);
			const size_t k = strlen(o.sig);
			for (size_t j = 0; j < 5; j++) {
				int a = 0;
				if (j < k) {
					char kind = (char)(o.sig[j] | 32);
					a = repeat || r.chance(same, 4) ? fav[kind] : (int)r.below(limit(kind));
						if ((j > 0 || o.sig[0] < 'a') && r.below(10) < (u64)share) a += 8;
				}
				b(a);
			}
			b(repeat ? im : r.next() >> 8);
			p.add(b);
			const int bits = o.weight == 0 ? 11 : o.weight == 1 ? 15 : 21;
			for (int q = (int)r.below(npre + 1); q > 0; q--) {
				const int to = (int)r.below(3);
				u64 c = style == 0 ? 0 : style == 1 ? 3 : style == 2 ? 6 : r.below(10);
				if (c < 3) p.add(StepB("pre")("I")(logUniform(r, 7))(0)(to));
				else if (c < 6) p.add(StepB("pre")("A")(logUniform(r, bits))(0)(to));
				else if (c < 9) p.add(StepB("pre")("S")(logUniform(r, bits))(logUniform(r, thorough ? 14 : 12))(to));
				else p.add(StepB("pre")("Y")(0)(0)(to));
			}
		}
	}
}
void genOwn(Rng& r, Plan& p, bool t) { gen(r, p, t, false); }
void genShared(Rng& r, Plan& p, bool t) { gen(r, p, t, true); }
void prep(const Plan& p)
{
	B::initModel(p);
	cat::prepare();
}
World w1("threads", genOwn, exec, prep);
World w2("shared", genShared, exec, prep);
}
