#include "core.h"
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <signal.h>
#include <fcntl.h>
#include <poll.h>
#include <dlfcn.h>
#include <ucontext.h>
#include <cpuid.h>
#include <sys/syscall.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <time.h>
#include <new>
#include <unordered_set>
#include <algorithm>

World *World::head = 0;

// ---------------------------------------------------------------- text
std::string hexOf(const void *p, size_t n)
{
	static const char d[] = "0123456789abcdef";
	std::string s;
	for (size_t i = 0; i < n; i++) {
		unsigned char c = ((const unsigned char *)p)[i];
		s += d[c >> 4];
		s += d[c & 15];
	}
	return s;
}
std::string escText(const std::string& s)
{
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c <= 32 || c >= 127 || c == '%' || (c == '-' && s.size() == 1)) {
			char b[8];
			snprintf(b, sizeof b, "%%%02x", c);
			r += b;
		} else {
			r += c;
		}
	}
	return r.empty() ? "-" : r;
}
std::string unescText(const std::string& s)
{
	if (s == "-") return "";
	std::string r;
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '%' && i + 2 < s.size()) {
			r += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16);
			i += 2;
		} else {
			r += s[i];
		}
	}
	return r;
}
u64 hashBytes(const void *p, size_t n, u64 h)
{
	for (size_t i = 0; i < n; i++) h = (h ^ ((const unsigned char *)p)[i]) * 1099511628211ULL;
	return h;
}
std::string Plan::str() const
{
	std::ostringstream os;
	os << "plan " << world << " " << seed << "\n";
	for (std::map<std::string, std::string>::const_iterator i = h.begin(); i != h.end(); ++i) os << "set " << i->first << " " << i->second << "\n";
	for (size_t i = 0; i < steps.size(); i++) {
		os << "do";
		for (size_t j = 0; j < steps[i].t.size(); j++) os << " " << steps[i].t[j];
		os << "\n";
	}
	return os.str();
}
bool Plan::parse(const std::string& text)
{
	std::istringstream is(text);
	std::string line;
	while (std::getline(is, line)) {
		if (line.empty() || line[0] == '#') continue;
		std::istringstream ls(line);
		std::string k;
		ls >> k;
		if (k == "plan") {
			ls >> world >> seed;
		} else if (k == "set") {
			std::string a, b;
			ls >> a;
			std::getline(ls, b);
			h[a] = b.empty() ? b : b.substr(1);
		} else if (k == "do") {
			Step st;
			std::string a;
			while (ls >> a) st.t.push_back(a);
			if (!st.t.empty()) steps.push_back(st);
		}
	}
	return !world.empty();
}

// ---------------------------------------------------------------- allocator seam
namespace alloc {
volatile long live = 0;
volatile unsigned long calls = 0;
unsigned long fired = 0;
unsigned char poison = 0;
bool leak = false;
__thread int inside = 0;
static long s_failAt = 0, s_failEvery = 0, s_idx = 0;
static u64 s_mask = 0;
static int s_maskLen = 0;
void off() { s_failAt = s_failEvery = 0; s_mask = 0; s_maskLen = 0; }
void failAt(long n) { off(); fired = 0; s_idx = 0; s_failAt = n; }
void failEvery(long n) { off(); fired = 0; s_idx = 0; s_failEvery = n; }
void failMask(u64 m, int len) { off(); fired = 0; s_idx = 0; s_mask = m; s_maskLen = len; }
static bool shouldFail()
{
	if (!(s_failAt || s_failEvery || s_maskLen)) return false;
	long i = ++s_idx;
	bool f = (s_failAt && i == s_failAt) || (s_failEvery && i >= s_failEvery) || (s_maskLen && ((s_mask >> ((i - 1) % s_maskLen)) & 1));
	if (f) fired++;
	return f;
}
struct Inside { Inside() { inside++; } ~Inside() { inside--; } };
static void *get(size_t n)
{
	Inside in;
	calls = calls + 1;
	if (shouldFail()) return 0;
	void *p = malloc(n ? n : 1);
	if (!p) return 0;
	memset(p, poison, n);
	live = live + 1;
	return p;
}
static void put(void *p)
{
	if (!p) return;
	Inside in;
	live = live - 1;
	if (!leak) free(p);
}
}
void *operator new(size_t n) { void *p = alloc::get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new[](size_t n) { void *p = alloc::get(n); if (!p) throw std::bad_alloc(); return p; }
void *operator new(size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
void *operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
void operator delete(void *p) noexcept { alloc::put(p); }
void operator delete[](void *p) noexcept { alloc::put(p); }
void operator delete(void *p, size_t) noexcept { alloc::put(p); }
void operator delete[](void *p, size_t) noexcept { alloc::put(p); }

namespace sys {
unsigned long memalignCalls = 0, mprotectCalls = 0, firedMemalign = 0, firedMprotect = 0;
static long s_ma = 0, s_mp = 0;
int nExec = 0;
u64 execLo[16], execHi[16];
void failPosixMemalign(long n) { s_ma = n; memalignCalls = 0; }
void failMprotect(long n) { s_mp = n; mprotectCalls = 0; }
void off() { s_ma = s_mp = 0; }
}
extern "C" int posix_memalign(void **out, size_t al, size_t n)
{
	static int (*real)(void **, size_t, size_t) = (int (*)(void **, size_t, size_t))dlsym(RTLD_NEXT, "posix_memalign");
	++sys::memalignCalls;
	// n > 0: only that call fails, n < 0: all from -n on
	if (sys::s_ma && ((sys::s_ma > 0 && (long)sys::memalignCalls == sys::s_ma) || (sys::s_ma < 0 && (long)sys::memalignCalls >= -sys::s_ma))) { sys::firedMemalign++; return ENOMEM; }
	return real(out, al, n);
}
extern "C" void *mmap(void *a, size_t n, int prot, int flags, int fd, off_t off)
{
	if (sys::s_ma && fd < 0) {
		++sys::memalignCalls;
		if ((sys::s_ma > 0 && (long)sys::memalignCalls == sys::s_ma) || (sys::s_ma < 0 && (long)sys::memalignCalls >= -sys::s_ma)) { sys::firedMemalign++; errno = ENOMEM; return MAP_FAILED; }
	}
	return (void *)syscall(SYS_mmap, a, n, prot, flags, fd, off);
}
extern "C" int mprotect(void *a, size_t n, int prot)
{
	static int (*real)(void *, size_t, int) = (int (*)(void *, size_t, int))dlsym(RTLD_NEXT, "mprotect");
	++sys::mprotectCalls;
	if (sys::s_mp && ((sys::s_mp > 0 && (long)sys::mprotectCalls == sys::s_mp) || (sys::s_mp < 0 && (long)sys::mprotectCalls >= -sys::s_mp))) { sys::firedMprotect++; errno = EACCES; return -1; }
	if ((prot & PROT_EXEC) && sys::nExec < 16) { sys::execLo[sys::nExec] = (u64)a; sys::execHi[sys::nExec++] = (u64)a + n; }
	return real(a, n, prot);
}

// ---------------------------------------------------------------- CPUID seam
namespace cpu {
unsigned long queries = 0;
static int s_vendor = 0, s_bmi2 = 1, s_model = 0;
static void onCpuid(int, siginfo_t *, void *c)
{
	ucontext_t *u = (ucontext_t *)c;
	greg_t *g = u->uc_mcontext.gregs;
	const unsigned char *ip = (const unsigned char *)g[REG_RIP];
	// data faults and faults of jumps are real
	if (g[REG_TRAPNO] != 13 || ip[0] != 0x0f || ip[1] != 0xa2) { signal(SIGSEGV, SIG_DFL); return; }
	unsigned a = (unsigned)g[REG_RAX], b, cc = (unsigned)g[REG_RCX], d;
	const unsigned leaf = a, sub = cc;
	syscall(SYS_arch_prctl, 0x1012, 1);
	__cpuid_count(leaf, sub, a, b, cc, d);
	syscall(SYS_arch_prctl, 0x1012, 0);
	queries++;
	if (leaf == 0 && s_vendor) {
		const char *v = s_vendor == 1 ? "GenuineIntel" : "AuthenticAMD";
		memcpy(&b, v, 4);
		memcpy(&d, v + 4, 4);
		memcpy(&cc, v + 8, 4);
	}
	if (leaf == 1 && s_model) a = (a & ~0x0fff0ff0u) | (6 << 8) | ((s_model & 15) << 4) | ((s_model >> 4) << 16);
	if (leaf == 7 && sub == 0 && !s_bmi2) b &= ~((1u << 8) | (1u << 19));
	g[REG_RAX] = a;
	g[REG_RBX] = b;
	g[REG_RCX] = cc;
	g[REG_RDX] = d;
	g[REG_RIP] += 2;
}
bool simulate(int vendor, int bmi2, int model)
{
	s_vendor = vendor;
	s_bmi2 = bmi2;
	s_model = model;
	if (!vendor && bmi2 && !model) { syscall(SYS_arch_prctl, 0x1012, 1); return true; }
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_sigaction = onCpuid;
	sa.sa_flags = SA_SIGINFO | SA_NODEFER;
	sigaction(SIGSEGV, &sa, 0);
	return syscall(SYS_arch_prctl, 0x1012, 0) == 0;
}
}

// ---------------------------------------------------------------- stack seam
static const size_t STK = 2 << 20;
namespace {
struct Tr { void (*f)(void *); void *a; };
void *tramp(void *p) { Tr *t = (Tr *)p; t->f(t->a); return 0; }
}
void fillPattern(void *p, size_t n, u64 seed)
{
	// 0: zero, 1: all ones, 2..: pseudo random words
	u64 *w = (u64 *)p;
	n /= 8;
	if (seed % 8 == 0) { memset(w, 0, n * 8); return; }
	if (seed % 8 == 1) { memset(w, 0xff, n * 8); return; }
	u64 z = seed * 0x9E3779B97F4A7C15ULL;
	for (size_t i = 0; i < n; i++) { z = z * 6364136223846793005ULL + 1442695040888963407ULL; w[i] = z ^ (z >> 29); }
}
void onPoisonedStack(u64 seed, void (*f)(void *), void *arg)
{
	static char *base = 0;
	if (!base) {
		base = (char *)mmap((void *)0x600000000000ULL, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (base == (char *)MAP_FAILED) { perror("mmap stack"); _exit(97); }
	}
	fillPattern(base + STK - (160 << 10), 160 << 10, seed);
	pthread_attr_t at;
	pthread_attr_init(&at);
	pthread_attr_setstack(&at, base, STK);
	pthread_t th;
	Tr t = { f, arg };
	if (pthread_create(&th, &at, tramp, &t)) { perror("pthread_create"); _exit(97); }
	pthread_join(th, 0);
}
__attribute__((noinline)) void poisonBelow(u64 seed, size_t bytes)
{
	char *p = (char *)__builtin_alloca(bytes);
	fillPattern(p, bytes & ~(size_t)7, seed);
	asm volatile("" : : "r"(p) : "memory");
}

// ---------------------------------------------------------------- run context (in the child)
struct Shared { volatile u64 step; volatile u64 evs; volatile u64 hash; };
static Shared *s_sh = 0;
static int s_out = -1;
static char *s_buf = 0;
static size_t s_len = 0, s_cap = 0;
static bool s_trace = false;
static std::map<std::string, u64> *s_stats = 0;
static std::unordered_set<u64> *s_cov = 0;
static bool s_nontriv = false;
static std::string *s_sample = 0;
static u64 s_hash = 1469598103934665603ULL;

bool tracing() { return s_trace; }
static void put(const std::string& l)
{
	if (s_len + l.size() + 1 > s_cap) return;
	memcpy(s_buf + s_len, l.data(), l.size());
	s_len += l.size();
	s_buf[s_len++] = '\n';
}
static void flushOut()
{
	size_t o = 0;
	while (o < s_len) {
		ssize_t n = write(s_out, s_buf + o, s_len - o);
		if (n <= 0) break;
		o += n;
	}
	s_len = 0;
}
void setStep(u64 i) { if (s_sh) s_sh->step = i; }
u64 curStep() { return s_sh ? s_sh->step : 0; }
static void finish(const Violation *v)
{
	alloc::off();
	sys::off();
	if (s_stats) for (std::map<std::string, u64>::iterator i = s_stats->begin(); i != s_stats->end(); ++i) put("stat " + i->first + " " + std::to_string(i->second));
	if (s_cov) for (std::unordered_set<u64>::iterator i = s_cov->begin(); i != s_cov->end(); ++i) put("cov " + std::to_string(*i));
	if (s_nontriv) put("nontrivial");
	if (s_sample && !s_sample->empty()) put("sample " + escText(*s_sample));
	if (v) put("viol " + v->cls + " " + escText(v->msg.substr(0, 3000)));
	put("hash " + std::to_string(s_hash));
	put("done");
	flushOut();
}
void violate(const std::string& cls, const std::string& msg)
{
	alloc::off();
	Violation v(cls, msg);
	if (s_trace) fprintf(stderr, "VIOL %s: %s\n", cls.c_str(), msg.c_str());
	finish(&v);
	_exit(0);
}
void endRun()
{
	finish(0);
	_exit(0);
}
void ev(const std::string& w)
{
	s_hash = hashStr(w, s_hash);
	if (s_trace) fprintf(stderr, "ev %s\n", w.c_str());
}
void ev(const char *w, u64 v)
{
	s_hash = hashBytes(w, strlen(w), s_hash);
	s_hash = hashBytes(&v, sizeof v, s_hash);
	if (s_trace) fprintf(stderr, "ev %s %llu\n", w, (unsigned long long)v);
}
void evBytes(const char *tag, const void *p, size_t n)
{
	s_hash = hashBytes(tag, strlen(tag), s_hash);
	s_hash = hashBytes(p, n, s_hash);
	if (s_trace) fprintf(stderr, "ev %s %s\n", tag, hexOf(p, n).c_str());
}
void stat(const char *name, u64 n) { if (s_stats) (*s_stats)[name] += n; }
void stat(const std::string& name, u64 n) { if (s_stats) (*s_stats)[name] += n; }
void cover(const std::string& k) { cover(hashStr(k)); }
void cover(u64 h) { if (s_cov && s_cov->size() < 4096) s_cov->insert(h); }
void sample(const std::string& s) { if (s_sample && s_sample->empty()) *s_sample = s.substr(0, 1500); }
void nontrivial() { s_nontriv = true; }

struct Result {
	bool done;
	std::string cls, msg, sampleText, stdouterr;
	u64 hash;
	bool nontriv;
	std::map<std::string, u64> stats;
	std::vector<u64> cov;
	Result() : done(false), hash(0), nontriv(false) {}
};

static World *findWorld(const std::string& n)
{
	for (World *w = World::head; w; w = w->next) if (n == w->name) return w;
	return 0;
}
static const Plan *s_plan;
static World *s_world;
static void bodyOnStack(void *)
{
	try {
		s_world->exec(*s_plan);
	} catch (std::exception& e) {
		violate("uncaught", std::string("exception left the run: ") + e.what());
	}
}

static Result runPlan(const Plan& p, bool trace)
{
	static int memfd = -1;
	if (memfd < 0) memfd = memfd_create("simout", 0);
	Result r;
	World *w = findWorld(p.world);
	if (!w) { r.cls = "noworld"; return r; }
	if (w->prepare) w->prepare(p);
	int fd[2];
	if (pipe(fd)) { perror("pipe"); exit(96); }
	s_sh->step = 0;
	if (ftruncate(memfd, 0)) {}
	fflush(stdout);
	fflush(stderr);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(96); }
	if (pid == 0) {
		close(fd[0]);
		s_out = fd[1];
		s_trace = trace;
		lseek(memfd, 0, SEEK_SET);
		if (!trace) { dup2(memfd, 1); dup2(memfd, 2); }
		struct rlimit rl = { 40, 45 };
		setrlimit(RLIMIT_CPU, &rl);
		struct rlimit rc = { 0, 0 };
		setrlimit(RLIMIT_CORE, &rc);
		s_cap = 1 << 20;
		s_buf = (char *)mmap(0, s_cap, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		s_len = 0;
		s_stats = new std::map<std::string, u64>();
		s_cov = new std::unordered_set<u64>();
		s_sample = new std::string();
		s_world = w;
		s_plan = &p;
		alloc::poison = (unsigned char)(p.hu("heapgarbage", 0));
		onPoisonedStack(p.hu("stackgarbage", 0), bodyOnStack, 0);
		finish(0);
		_exit(0);
	}
	close(fd[1]);
	std::string txt;
	char buf[65536];
	time_t t0 = time(0);
	bool killed = false;
	for (;;) {
		struct pollfd pf = { fd[0], POLLIN, 0 };
		int pr = poll(&pf, 1, 1000);
		if (pr > 0) {
			ssize_t n = read(fd[0], buf, sizeof buf);
			if (n <= 0) break;
			txt.append(buf, n);
		} else if (time(0) - t0 > 100) {
			kill(pid, SIGKILL);
			killed = true;
		}
	}
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	{
		char ob[2001];
		ssize_t n = pread(memfd, ob, 2000, 0);
		if (n > 0) r.stdouterr.assign(ob, n);
	}
	std::istringstream is(txt);
	std::string line;
	while (std::getline(is, line)) {
		size_t sp = line.find(' ');
		std::string k = line.substr(0, sp), v = sp == std::string::npos ? "" : line.substr(sp + 1);
		if (k == "stat") {
			size_t q = v.rfind(' ');
			r.stats[v.substr(0, q)] = strtoull(v.c_str() + q, 0, 10);
		} else if (k == "cov") {
			r.cov.push_back(strtoull(v.c_str(), 0, 10));
		} else if (k == "nontrivial") {
			r.nontriv = true;
		} else if (k == "sample") {
			r.sampleText = unescText(v);
		} else if (k == "viol") {
			size_t q = v.find(' ');
			r.cls = v.substr(0, q);
			r.msg = unescText(v.substr(q + 1));
		} else if (k == "hash") {
			r.hash = strtoull(v.c_str(), 0, 10);
		} else if (k == "done") {
			r.done = true;
		}
	}
	if (!r.done) {
		std::string at = " at step " + std::to_string(s_sh->step) + (s_sh->step < p.steps.size() ? " (" + p.steps[s_sh->step].op() + ")" : std::string());
		if (killed || (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) || (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)) {
			r.cls = "hang";
			r.msg = "the run does not end" + at;
		} else if (WIFSIGNALED(st)) {
			r.cls = strf("crash-signal-%d", WTERMSIG(st));
			r.msg = "the process crashed" + at;
		} else {
			r.cls = strf("process-exit-%d", WEXITSTATUS(st));
			r.msg = "the process was ended by the library" + at;
			if (WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 96) r.cls = "harness-error";
		}
		if (!r.stdouterr.empty()) r.msg += " output: " + r.stdouterr.substr(0, 300);
	}
	return r;
}

static double now()
{
	struct timespec t;
	clock_gettime(CLOCK_MONOTONIC, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}
static std::string js(const std::string& s)
{
	std::string r = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += c;
	}
	return r + "\"";
}
static std::string readAll(const char *f)
{
	FILE *fp = fopen(f, "rb");
	if (!fp) { perror(f); exit(95); }
	std::string s;
	char b[65536];
	size_t n;
	while ((n = fread(b, 1, sizeof b, fp)) > 0) s.append(b, n);
	fclose(fp);
	return s;
}
static Plan makePlan(World *w, u64 seed, bool thorough)
{
	Plan p;
	p.world = w->name;
	p.seed = seed;
	Rng r(seed);
	p.set("stackgarbage", r.below(1000));
	p.set("heapgarbage", r.below(3) == 0 ? 0 : r.below(256));
	w->gen(r, p, thorough);
	return p;
}
static std::string resultJson(const Result& r)
{
	std::string o = "{\"cls\":" + js(r.cls) + ",\"msg\":" + js(r.msg) + ",\"hash\":\"" + std::to_string(r.hash) + "\",\"output\":" + js(r.stdouterr.substr(0, 500)) + "}";
	return o;
}
static Plan minimize(Plan p, const std::string& cls, double budget)
{
	double end = now() + budget;
	size_t chunk = (p.steps.size() + 1) / 2;
	while (chunk >= 1 && !p.steps.empty()) {
		bool changed = false;
		for (size_t i = 0; i < p.steps.size() && now() < end;) {
			Plan q = p;
			size_t e = std::min(p.steps.size(), i + chunk);
			q.steps.erase(q.steps.begin() + i, q.steps.begin() + e);
			Result r = runPlan(q, false);
			if (r.cls == cls) {
				p = q;
				changed = true;
			} else {
				i += chunk;
			}
		}
		if (now() >= end) break;
		if (chunk == 1 && !changed) break;
		if (!(chunk == 1 && changed)) chunk = chunk / 2;
	}
	return p;
}

int main(int argc, char **argv)
{
	int pers = personality(0xffffffff);
	if (!(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_REEXEC")) {
		if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) {
			char *env[] = { (char *)"SIM_REEXEC=1", (char *)"LC_ALL=C", 0 };
			execve("/proc/self/exe", argv, env);
		}
	}
	s_sh = (Shared *)mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	signal(SIGPIPE, SIG_IGN);
	std::map<std::string, std::string> o;
	std::string cmd = argc > 1 ? argv[1] : "";
	for (int i = 2; i + 1 < argc; i += 2) o[argv[i] + 2] = argv[i + 1];
	bool thorough = o["tier"] == "thorough";
	World *w = findWorld(o["world"]);
	if (cmd == "plan") {
		if (!w) return 95;
		printf("%s", makePlan(w, strtoull(o["seed"].c_str(), 0, 10), thorough).str().c_str());
		return 0;
	}
	if (cmd == "exec") {
		Plan p;
		if (!p.parse(readAll(o["plan"].c_str()))) return 95;
		Result r = runPlan(p, o["trace"] == "1");
		printf("%s\n", resultJson(r).c_str());
		return 0;
	}
	if (cmd == "seed") {
		if (!w) return 95;
		Plan p = makePlan(w, strtoull(o["seed"].c_str(), 0, 10), thorough);
		Result r = runPlan(p, o["trace"] == "1");
		printf("%s\n", resultJson(r).c_str());
		return 0;
	}
	if (cmd == "min") {
		Plan p;
		if (!p.parse(readAll(o["plan"].c_str()))) return 95;
		p = minimize(p, o["cls"], strtod(o["budget"].c_str(), 0));
		printf("%s", p.str().c_str());
		return 0;
	}
	if (cmd == "hashes") { // determinism audit: hash of each seed
		u64 a = strtoull(o["start"].c_str(), 0, 10), n = strtoull(o["count"].c_str(), 0, 10);
		for (u64 i = 0; i < n; i++) {
			Result r = runPlan(makePlan(w, a + i, thorough), false);
			printf("%llu %llu %s\n", (unsigned long long)(a + i), (unsigned long long)r.hash, r.cls.c_str());
		}
		return 0;
	}
	if (cmd == "batch") {
		if (!w) return 95;
		u64 start = strtoull(o["start"].c_str(), 0, 10), stride = strtoull(o["stride"].c_str(), 0, 10), count = strtoull(o["count"].c_str(), 0, 10);
		int maxViol = o.count("maxviol") ? atoi(o["maxviol"].c_str()) : 3;
		double budget = strtod(o["budget"].c_str(), 0), t0 = now();
		std::map<std::string, u64> st;
		std::unordered_set<u64> cov, ntHashes;
		std::vector<std::string> samples;
		u64 runs = 0, nt = 0, redet = 0, nviol = 0;
		double simsteps = 0;
		bool mismatch = false;
		for (u64 i = 0; i < count && now() - t0 < budget && (int)nviol < maxViol; i++) {
			u64 seed = start + i * stride;
			Plan p = makePlan(w, seed, thorough);
			Result r = runPlan(p, false);
			runs++;
			simsteps += p.steps.size();
			for (std::map<std::string, u64>::iterator j = r.stats.begin(); j != r.stats.end(); ++j) st[j->first] += j->second;
			if (cov.size() < 2000000) cov.insert(r.cov.begin(), r.cov.end());
			if (r.nontriv) { nt++; ntHashes.insert(r.hash); }
			if (!r.sampleText.empty() && samples.size() < 3 && r.nontriv) samples.push_back("seed " + std::to_string(seed) + ": " + r.sampleText);
			if (i % 97 == 13 && r.cls.empty()) { // determinism audit on the fly
				Result r2 = runPlan(p, false);
				redet++;
				if (r2.hash != r.hash || r2.cls != r.cls) { mismatch = true; printf("MISMATCH %llu\n", (unsigned long long)seed); }
			}
			if (!r.cls.empty()) {
				nviol++;
				printf("VIOL %llu %s\n", (unsigned long long)seed, resultJson(r).c_str());
				fflush(stdout);
			}
		}
		std::string s = "{\"runs\":" + std::to_string(runs) + ",\"nontrivial\":" + std::to_string(nt) + ",\"distinct_nontrivial\":" + std::to_string(ntHashes.size()) + ",\"cover\":" + std::to_string(cov.size()) + ",\"rechecked\":" + std::to_string(redet) + ",\"mismatch\":" + (mismatch ? "true" : "false") + ",\"steps\":" + strf("%.0f", simsteps) + ",\"violations\":" + std::to_string(nviol) + ",\"stats\":{";
		bool first = true;
		for (std::map<std::string, u64>::iterator j = st.begin(); j != st.end(); ++j) {
			if (!first) s += ",";
			first = false;
			s += js(j->first) + ":" + std::to_string(j->second);
		}
		s += "},\"samples\":[";
		for (size_t i = 0; i < samples.size(); i++) s += (i ? "," : "") + js(samples[i]);
		s += "]}";
		printf("SUMMARY %s\n", s.c_str());
		if (o.count("covfile")) {
			FILE *fp = fopen(o["covfile"].c_str(), "wb");
			if (fp) {
				std::vector<u64> v(cov.begin(), cov.end());
				if (!v.empty()) fwrite(&v[0], 8, v.size(), fp);
				fclose(fp);
			}
		}
		return 0;
	}
	fprintf(stderr, "usage\n");
	return 95;
}
