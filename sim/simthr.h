// Simulated thread scheduler: real threads of which exactly one runs at a time. The code of the library is compiled
// with calls before every memory access, function entry and atomic operation (the compiler's -fsanitize=thread
// instrumentation with the run time library below instead of the sanitizer's); generated code and parts are executed
// one machine instruction at a time. All of these are points where the plan may stop a thread.
#pragma once
#include "core.h"
#include <vector>
#include <unordered_set>

namespace sched {
// A n: at the n-th access of the operation; I n: at the n-th access to memory several threads can see and which is
// written; S n len: from the n-th access on execute len instructions one by one, then stop; Y: after the operation
struct Pre { char kind; u64 n, len; int to; };
const int MAXT = 4;
void run(int first, int n, void (*body)(int)); // threads first .. n-1
void begin(const std::vector<Pre>& pre);
void end();
void share(void *lo, size_t n); // objects all threads may only read; writes are noticed
void unshare();
// record which words operations read and write besides their stack and the workspaces (0: off)
struct Watch { std::unordered_set<u64> wr, rd; int guards; };
void watch(Watch *w);
extern u64 switches, instr, accesses, interesting;
extern u64 order; // hash of the interleaving
extern std::string log; // of the switches
}
