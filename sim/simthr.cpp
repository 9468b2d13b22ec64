#include "simthr.h"
#include <pthread.h>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <string.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <linux/futex.h>
#include <sys/mman.h>
#include <sys/syscall.h>

extern "C" char __data_start, _end, __executable_start, etext;
#define ENGINE __attribute__((section("simsched"), noinline))
extern "C" char __start_simsched, __stop_simsched;

namespace sched {
u64 switches, instr, accesses, interesting, order;
std::string log;
namespace {
const size_t STACK = 1 << 20;
struct Thr {
	int id;
	bool done, on, stepping, refault;
	u64 acc, intr, nextAcc, nextIntr;
	u64 stepLeft, wild;
	int stepTo;
	int op;
	char *lo, *hi;
	std::vector<Pre> pre;
	volatile int turn;
	char alt[65536];
};
Thr *s_thr[MAXT];
int s_n;
__thread Thr *cur __attribute__((tls_model("initial-exec")));
void (*s_body)(int);
char *s_shLo, *s_shHi;
volatile int s_allDone;
Watch *s_watch;
struct Seen { u64 value; int changes; };
std::unordered_map<u64, Seen> *const s_seen = new std::unordered_map<u64, Seen>; // not among the static variables

// words which several threads can see
struct Word { u64 key; unsigned char written, readers, writer; };
const size_t NW = 1 << 15;
Word s_word[NW];
ENGINE bool note(Thr *t, u64 a, bool w)
{
	const bool vis = (a >= (u64)&__data_start && a < (u64)&_end) || (a >= (u64)s_shLo && a < (u64)s_shHi);
	if (!vis && a >= 0x610000000000ULL && a < 0x700000000000ULL) return false; // stacks and workspaces
	const u64 key = a >> 3;
	Word& e = s_word[(key * 0x9E3779B97F4A7C15ULL) >> 49];
	if (e.key != key) {
		if (!w && vis) return false; // read of a word nobody writes (yet)
		e.key = key;
		e.written = e.readers = 0;
	}
	const unsigned char me = (unsigned char)(1 << t->id);
	bool r = vis ? (w || e.written) : ((e.written & ~me) || (w && (e.readers & ~me)));
	if (w) e.written |= me; else e.readers |= me;
	return r;
}
ENGINE long futex(volatile int *p, int op, int v) { return syscall(SYS_futex, p, op, v, 0, 0, 0); }
ENGINE void wait(Thr *t)
{
	while (!t->turn) futex(&t->turn, FUTEX_WAIT, 0);
	t->turn = 0;
}
ENGINE void give(Thr *t)
{
	t->turn = 1;
	futex(&t->turn, FUTEX_WAKE, 1);
}
ENGINE Thr *other(Thr *t, int to)
{
	Thr *c[MAXT];
	int n = 0;
	for (int i = 0; i < s_n; i++) if (s_thr[i] && s_thr[i] != t && !s_thr[i]->done) c[n++] = s_thr[i];
	return n ? c[(unsigned)to % n] : 0;
}
// the running thread stops here
ENGINE bool switchTo(Thr *t, int to, char why)
{
	Thr *o = other(t, to);
	if (!o) return false;
	switches++;
	const u64 v[4] = { (u64)t->id, (u64)o->id, (u64)t->op, t->acc };
	order = hashBytes(v, sizeof v, order);
	if (log.size() < 1200) {
		char b[100];
		snprintf(b, sizeof b, "%d:op%d:%c:access%llu>%d ", t->id, t->op, why, (unsigned long long)t->acc, o->id);
		log += b; // capacity is reserved
	}
	give(o);
	wait(t);
	return true;
}
ENGINE void plan(Thr *t)
{
	t->nextAcc = t->nextIntr = ~0ULL;
	for (size_t i = 0; i < t->pre.size(); i++) {
		const Pre& p = t->pre[i];
		if (p.kind == 'I') { if (p.n > t->intr && p.n < t->nextIntr) t->nextIntr = p.n; }
		else if (p.kind != 'Y' && p.n > t->acc && p.n < t->nextAcc) t->nextAcc = p.n;
	}
}
inline void trapFlag() { asm volatile("pushfq; orq $0x100, (%%rsp); popfq" : : : "memory", "cc"); }
ENGINE void fire(Thr *t, bool intr)
{
	const u64 acc = t->acc, in = t->intr;
	const Pre *step = 0;
	for (size_t i = 0; i < t->pre.size(); i++) {
		const Pre& p = t->pre[i];
		if (p.kind == 'I' && intr && p.n == in) { stat("fault.preempt-at-shared-memory"); switchTo(t, p.to, 'I'); }
		else if (p.kind == 'A' && p.n == acc) { stat("fault.preempt-at-access"); switchTo(t, p.to, 'A'); }
		else if (p.kind == 'S' && p.n == acc) step = &p;
	}
	plan(t);
	if (step) {
		t->stepLeft = step->len;
		t->stepTo = step->to;
		t->wild = 0;
		t->stepping = true;
		trapFlag();
	}
}
ENGINE void record(Thr *t, u64 a, size_t n, bool w)
{
	if (a >= (u64)t->lo && a < (u64)t->hi) return;
	const bool sh = a >= (u64)s_shLo && a < (u64)s_shHi;
	if (s_watch->guards || (!sh && a >= 0x610000000000ULL && a < 0x620000000000ULL)) return;
	Watch *k = s_watch;
	s_watch = 0;
	t->on = false;
	for (u64 x = a >> 3; x <= (a + n - 1) >> 3; x++) (w ? k->wr : k->rd).insert(x);
	// a static variable that is read with different values is written by code that is not watched
	if (!w && n <= 8 && a >= (u64)&__data_start && a + n <= (u64)&_end) {
		u64 v = 0;
		for (size_t i = 0; i < n; i++) v |= (u64)((const volatile unsigned char *)a)[i] << (8 * i);
		const u64 key = a * 16 + n;
		std::unordered_map<u64, Seen>::iterator f = s_seen->find(key);
		if (f == s_seen->end()) {
			const Seen n = { v, 0 };
			s_seen->insert(std::make_pair(key, n));
		} else if (f->second.value != v) {
			f->second.value = v;
			if (++f->second.changes > 1) k->wr.insert(a >> 3); // once: it was initialized
		}
	}
	t->on = true;
	s_watch = k;
}
ENGINE __attribute__((always_inline)) inline void access(const void *p, size_t n, bool w)
{
	Thr *t = cur;
	if (!t || !t->on) return;
	t->acc++;
	if (t->stepping) return;
	const u64 a = (u64)p;
	if (s_watch) { record(t, a, n, w); return; }
	bool in = false;
	if (!(a >= (u64)t->lo && a < (u64)t->hi)) {
		for (u64 x = a & ~7ULL; x < a + n; x += 8) if (note(t, x, w)) in = true;
	}
	if (in) t->intr++;
	if (t->acc >= t->nextAcc || (in && t->intr >= t->nextIntr)) fire(t, in);
}
ENGINE __attribute__((always_inline)) inline void point()
{
	Thr *t = cur;
	if (!t || !t->on) return;
	t->acc++;
	if (t->stepping) return;
	if (t->acc >= t->nextAcc) fire(t, false);
}
bool mayStop(u64 ip)
{
	if (ip >= (u64)&__start_simsched && ip < (u64)&__stop_simsched) return false;
	if (alloc::inside) return false;
	if (ip >= (u64)&__executable_start && ip < (u64)&etext) return true;
	for (int i = 0; i < sys::nExec; i++) if (ip >= sys::execLo[i] && ip < sys::execHi[i]) return true;
	return false;
}
void onTrap(int, siginfo_t *, void *c)
{
	ucontext_t *u = (ucontext_t *)c;
	greg_t *g = u->uc_mcontext.gregs;
	Thr *t = cur;
	if (t && t->refault) { // a write to a shared object was let through
		t->refault = false;
		if (!t->stepping) g[REG_EFL] &= ~0x100LL;
		mprotect(s_shLo, s_shHi - s_shLo, PROT_READ);
		if (t->on && !t->stepping) {
			t->intr++;
			if (t->intr >= t->nextIntr) fire(t, true);
		}
		return;
	}
	if (!t || !t->stepping || !t->on) { g[REG_EFL] &= ~0x100LL; if (t) t->stepping = false; return; }
	instr++;
	if (mayStop((u64)g[REG_RIP])) {
		if (t->stepLeft == 0 || --t->stepLeft == 0) {
			t->stepping = false;
			g[REG_EFL] &= ~0x100LL;
			stat("fault.preempt-at-instruction");
			switchTo(t, t->stepTo, 'S');
			plan(t);
		}
	} else if (++t->wild > 100000) {
		t->stepping = false;
		g[REG_EFL] &= ~0x100LL;
	}
}
void onSegv(int, siginfo_t *si, void *c)
{
	ucontext_t *u = (ucontext_t *)c;
	char *a = (char *)si->si_addr;
	if (s_shLo && a >= s_shLo && a < s_shHi && (u->uc_mcontext.gregs[REG_ERR] & 2) && cur) {
		stat("shared-writes-by-instructions");
		mprotect(s_shLo, s_shHi - s_shLo, PROT_READ | PROT_WRITE);
		cur->refault = true;
		u->uc_mcontext.gregs[REG_EFL] |= 0x100;
		return;
	}
	signal(SIGSEGV, SIG_DFL);
}
void *threadMain(void *a)
{
	Thr *t = (Thr *)a;
	stack_t ss;
	memset(&ss, 0, sizeof ss);
	ss.ss_sp = t->alt;
	ss.ss_size = sizeof t->alt;
	sigaltstack(&ss, 0);
	cur = t;
	wait(t);
	s_body(t->id);
	t->on = false;
	cur = 0;
	t->done = true;
	Thr *o = other(t, 0);
	// threads end together: what malloc does with the arena of an ended thread would depend on time
	if (o) {
		give(o);
		while (!s_allDone) futex(&s_allDone, FUTEX_WAIT, 0);
	} else {
		s_allDone = 1;
		futex(&s_allDone, FUTEX_WAKE, 1 << 20);
	}
	return 0;
}
}
void watch(Watch *w) { s_watch = w; }
void run(int first, int n, void (*body)(int))
{
	struct sigaction sa;
	memset(&sa, 0, sizeof sa);
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	sa.sa_sigaction = onTrap;
	sigaction(SIGTRAP, &sa, 0);
	sa.sa_sigaction = onSegv;
	sigaction(SIGSEGV, &sa, 0);
	log.reserve(4096);
	s_body = body;
	s_n = n;
	s_allDone = 0;
	pthread_t th[MAXT];
	for (int i = 0; i < n; i++) s_thr[i] = 0;
	for (int i = first; i < n; i++) {
		char *at = (char *)0x620000000000ULL + i * (STACK * 4);
		char *st = (char *)mmap(at, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
		if (st == (char *)MAP_FAILED) violate("harness-error", "mmap stack");
		Thr *t = new Thr();
		t->id = i;
		t->lo = st;
		t->hi = st + STACK;
		s_thr[i] = t;
	}
	for (int i = first; i < n; i++) {
		pthread_attr_t at;
		pthread_attr_init(&at);
		pthread_attr_setstack(&at, s_thr[i]->lo, STACK);
		if (pthread_create(&th[i], &at, threadMain, s_thr[i])) violate("harness-error", "pthread_create");
	}
	give(s_thr[first]);
	for (int i = first; i < n; i++) pthread_join(th[i], 0);
}
void begin(const std::vector<Pre>& pre)
{
	Thr *t = cur;
	t->pre = pre;
	t->acc = t->intr = 0;
	t->op++;
	plan(t);
	t->on = true;
}
void end()
{
	Thr *t = cur;
	t->on = false;
	t->stepping = false;
	accesses += t->acc;
	interesting += t->intr;
	for (size_t i = 0; i < t->pre.size(); i++) if (t->pre[i].kind == 'Y') { stat("fault.switch-between-operations"); switchTo(t, t->pre[i].to, 'Y'); }
}
void share(void *lo, size_t n)
{
	if (s_watch) { s_shLo = (char *)lo; s_shHi = s_shLo + n; return; }
	s_shLo = (char *)lo;
	s_shHi = s_shLo + n;
	mprotect(lo, n, PROT_READ);
}
void unshare()
{
	if (s_shLo) mprotect(s_shLo, s_shHi - s_shLo, PROT_READ | PROT_WRITE);
	s_shLo = s_shHi = 0;
}
// the thread cannot go on: let others run
ENGINE static void blocked(int& spins)
{
	Thr *t = cur;
	if (++spins > 20000 || !switchTo(t, spins, 'B')) violate("deadlock", "all threads wait for each other");
}
}
using namespace sched;

// ---------------------------------------------------------------- locks give way to the scheduler
template<class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m)
{
	static int (*f)(pthread_mutex_t *) = real<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
	static int (*tr)(pthread_mutex_t *) = real<int (*)(pthread_mutex_t *)>("pthread_mutex_trylock");
	if (!cur) return f(m);
	int spins = 0, r;
	point();
	while ((r = tr(m)) == EBUSY) blocked(spins);
	return r;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m)
{
	static int (*f)(pthread_rwlock_t *) = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_rdlock");
	static int (*tr)(pthread_rwlock_t *) = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_tryrdlock");
	if (!cur) return f(m);
	int spins = 0, r;
	point();
	while ((r = tr(m)) == EBUSY) blocked(spins);
	return r;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m)
{
	static int (*f)(pthread_rwlock_t *) = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_wrlock");
	static int (*tr)(pthread_rwlock_t *) = real<int (*)(pthread_rwlock_t *)>("pthread_rwlock_trywrlock");
	if (!cur) return f(m);
	int spins = 0, r;
	point();
	while ((r = tr(m)) == EBUSY) blocked(spins);
	return r;
}
int pthread_once(pthread_once_t *o, void (*fn)())
{
	static int (*f)(pthread_once_t *, void (*)()) = real<int (*)(pthread_once_t *, void (*)())>("pthread_once");
	if (!cur) return f(o, fn);
	volatile int *s = (volatile int *)o;
	point();
	int spins = 0;
	while (*s == 1) blocked(spins);
	if (*s & 2) return 0;
	*s = 1;
	try { fn(); } catch (...) { *s = 0; throw; }
	*s = 2;
	return 0;
}
int sched_yield()
{
	if (cur) { switchTo(cur, 0, 'B'); return 0; }
	return (int)syscall(SYS_sched_yield);
}
// initialization of local static objects
}
namespace __cxxabiv1 {
extern "C" {
int __cxa_guard_acquire(__cxxabiv1::__guard *g)
{
	volatile unsigned char *b = (volatile unsigned char *)g;
	int spins = 0;
	while (!b[0] && b[1]) { if (!cur) abort(); blocked(spins); }
	if (b[0]) return 0;
	b[1] = 1;
	if (s_watch) s_watch->guards++;
	return 1;
}
void __cxa_guard_release(__cxxabiv1::__guard *g) { volatile unsigned char *b = (volatile unsigned char *)g; b[1] = 0; b[0] = 1; if (s_watch) s_watch->guards--; }
void __cxa_guard_abort(__cxxabiv1::__guard *g) { if (s_watch) s_watch->guards--; ((volatile unsigned char *)g)[1] = 0; }
}
}
extern "C" {
// ---------------------------------------------------------------- what the instrumented code calls
#define ACC(n, sz) \
	ENGINE void __tsan_read##n(void *p) { access(p, sz, false); } \
	ENGINE void __tsan_write##n(void *p) { access(p, sz, true); } \
	ENGINE void __tsan_unaligned_read##n(void *p) { access(p, sz, false); } \
	ENGINE void __tsan_unaligned_write##n(void *p) { access(p, sz, true); } \
	ENGINE void __tsan_volatile_read##n(void *p) { access(p, sz, false); } \
	ENGINE void __tsan_volatile_write##n(void *p) { access(p, sz, true); } \
	ENGINE void __tsan_unaligned_volatile_read##n(void *p) { access(p, sz, false); } \
	ENGINE void __tsan_unaligned_volatile_write##n(void *p) { access(p, sz, true); }
ACC(1, 1) ACC(2, 2) ACC(4, 4) ACC(8, 8) ACC(16, 16)
ENGINE void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
ENGINE void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
ENGINE void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
ENGINE void __tsan_vptr_read(void **p) { access(p, 8, false); }
ENGINE void __tsan_func_entry(void *) { point(); }
ENGINE void __tsan_func_exit() { point(); }
void __tsan_init() {}
#define ATOM(bits, T) \
	ENGINE T __tsan_atomic##bits##_load(const volatile T *p, int) { access((const void *)p, sizeof(T), false); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	ENGINE void __tsan_atomic##bits##_store(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { access((const void *)p, sizeof(T), true); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	ENGINE bool __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { access((const void *)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	ENGINE bool __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { access((const void *)p, sizeof(T), true); return __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
	ENGINE T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { access((const void *)p, sizeof(T), true); __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return e; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned int) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { __sync_synchronize(); point(); }
void __tsan_atomic_signal_fence(int) {}
}
