// Deterministic simulation core: PRNG, plans, runs, fault seams (allocator, stack garbage).
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <sstream>

typedef uint64_t u64;
typedef uint32_t u32;

struct Rng {
	u64 s;
	explicit Rng(u64 seed) : s(seed ^ 0xD1B54A32D192ED03ULL) { s = next() ^ (seed << 17); s = next(); }
	u64 next()
	{
		s += 0x9E3779B97F4A7C15ULL;
		u64 z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
	u64 below(u64 n) { return n ? next() % n : 0; }
	u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
	bool chance(unsigned num, unsigned den) { return below(den) < num; }
	template<class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
	Rng fork() { return Rng(next()); }
};

// ---- plan: the complete, explicit description of one execution
struct Step {
	std::vector<std::string> t; // tokens
	const std::string& op() const { return t[0]; }
	size_t n() const { return t.size(); }
	const std::string& s(size_t i) const { static const std::string e; return i < t.size() ? t[i] : e; }
	u64 u(size_t i) const { return i < t.size() ? strtoull(t[i].c_str(), 0, 10) : 0; }
	long long i(size_t i) const { return i < t.size() ? strtoll(t[i].c_str(), 0, 10) : 0; }
};
struct StepB { // builder
	Step st;
	explicit StepB(const std::string& op) { st.t.push_back(op); }
	StepB& operator()(const std::string& a) { st.t.push_back(a.empty() ? "-" : a); return *this; }
	StepB& operator()(const char *a) { return (*this)(std::string(a)); }
	StepB& operator()(u64 a) { return (*this)(std::to_string(a)); }
	StepB& operator()(u32 a) { return (*this)(std::to_string(a)); }
	StepB& operator()(int a) { return (*this)(std::to_string(a)); }
	StepB& operator()(long long a) { return (*this)(std::to_string(a)); }
};
struct Plan {
	std::string world;
	u64 seed;
	std::map<std::string, std::string> h; // header (not removable)
	std::vector<Step> steps;              // removable by minimization
	Plan() : seed(0) {}
	u64 hu(const char *k, u64 d = 0) const { std::map<std::string, std::string>::const_iterator i = h.find(k); return i == h.end() ? d : strtoull(i->second.c_str(), 0, 10); }
	long long hi(const char *k, long long d = 0) const { std::map<std::string, std::string>::const_iterator i = h.find(k); return i == h.end() ? d : strtoll(i->second.c_str(), 0, 10); }
	std::string hs(const char *k) const { std::map<std::string, std::string>::const_iterator i = h.find(k); return i == h.end() ? std::string() : i->second; }
	template<class T> void set(const char *k, const T& v) { std::ostringstream os; os << v; h[k] = os.str(); }
	void add(const StepB& b) { steps.push_back(b.st); }
	std::string str() const;
	bool parse(const std::string& text);
};

// ---- result of one execution
struct Violation {
	std::string cls, msg;
	Violation(const std::string& c, const std::string& m) : cls(c), msg(m) {}
};
// report from inside a run: the run stops
void violate(const std::string& cls, const std::string& msg);
// the process is about to end in an expected way: report and end
void endRun();
// event log (hash only, plus text when tracing)
void ev(const std::string& what);
void ev(const char *what, u64 v);
void evBytes(const char *tag, const void *p, size_t n);
bool tracing();
void stat(const char *name, u64 n = 1);      // counters for the evidence
void stat(const std::string& name, u64 n = 1);
void cover(const std::string& key);          // distinct states / interleavings reached
void cover(u64 h);
void sample(const std::string& s);           // written-out case for the evidence
void nontrivial();                           // this run exercised what the property is about
u64 hashBytes(const void *p, size_t n, u64 h = 1469598103934665603ULL);
inline u64 hashStr(const std::string& s, u64 h = 1469598103934665603ULL) { return hashBytes(s.data(), s.size(), h); }

// ---- allocation seam (operator new/delete are replaced)
namespace alloc {
extern volatile long live;         // live blocks
extern volatile unsigned long calls; // calls of operator new
void failAt(long n);        // n-th call from now fails (1 = next), 0 = off
void failEvery(long n);     // from the n-th call on, all fail
void failMask(u64 mask, int len); // call i (0-based) fails iff bit (i % len) of mask
void off();
extern unsigned long fired; // failures injected since the last failAt/...
extern unsigned char poison;  // fill of fresh memory
extern bool leak;             // blocks are never used again
extern __thread int inside;   // this thread is in the seam
struct Guard { ~Guard() { off(); } };
}
// seam for pages of memory (mmap without a file, posix_memalign) and their protection
namespace sys {
void failPosixMemalign(long n);
void failMprotect(long n);
void off();
extern unsigned long memalignCalls, mprotectCalls, firedMemalign, firedMprotect;
extern int nExec; // ranges made executable: generated code
extern u64 execLo[16], execHi[16];
}

// CPUID seam: the answers of the processor (instruction faulting). false if this machine cannot do it
namespace cpu {
// vendor: 0 real, 1 Intel, 2 AMD; bmi2: 1 real, 0 without BMI2 and ADX; model: 0 real, else display family 6 model
bool simulate(int vendor, int bmi2, int model);
extern unsigned long queries;
}
// run f on a fresh stack filled with a pattern derived from seed
void onPoisonedStack(u64 seed, void (*f)(void *), void *arg);
void fillPattern(void *p, size_t n, u64 seed);
void setStep(u64 i); // current step, for reports of crashes
u64 curStep();
// overwrite the dead part of the current stack
void poisonBelow(u64 seed, size_t bytes);

// ---- worlds
struct World {
	const char *name;
	void (*gen)(Rng& r, Plan& p, bool thorough);
	void (*exec)(const Plan& p);
	void (*prepare)(const Plan& p); // runs before the fork, model code only
	World *next;
	static World *head;
	World(const char *n, void (*g)(Rng&, Plan&, bool), void (*e)(const Plan&), void (*pr)(const Plan&) = 0) : name(n), gen(g), exec(e), prepare(pr), next(head) { head = this; }
};

inline std::string strf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
inline std::string strf(const char *fmt, ...)
{
	char b[4096];
	va_list ap;
	va_start(ap, fmt);
	vsnprintf(b, sizeof b, fmt, ap);
	va_end(ap);
	return b;
}
std::string hexOf(const void *p, size_t n);
std::string escText(const std::string& s); // printable, without blanks
std::string unescText(const std::string& s);
