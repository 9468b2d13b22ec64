// Operations of the library on a workspace of objects, without a model: for worlds which compare executions.
#pragma once
#include "bridge.h"
#include <vector>

namespace cat {
typedef mie::ZmZ<> Zm;
enum { NF = 4, ND = 2, NG = 4, NH = 3, NK = 3, NP = 4, NQ = 4, NV = 3, NS = 3, NZ = 2, NT = 2 };
struct WS {
	bn::Fp f[NF];
	bn::FpDbl d[ND];
	bn::Fp2 g[NG];
	bn::Fp6 h[NH];
	bn::Fp12 k[NK];
	bn::Ec1 p[NP];
	bn::Ec2 q[NQ];
	mie::Vuint v[NV];
	mie::Vsint s[NS];
	Zm z[NZ];
	bn::Fp2 tq[NT][3];
	std::vector<bn::Fp6> t[NT];
};
struct Ctx {
	WS *own;
	const WS *sh;   // objects of all
	int a[5];       // a[0] destination, >= 8: shared
	u64 imm;
	std::string text; // results besides the destination
	u64 word;
};
struct Op {
	const char *name, *sig; // upper case: the first operand is only read
	int weight;             // 0 light, 1 medium, 2 heavy
	void (*run)(Ctx& c);
};
std::vector<Op>& ops();
const Op *find(const std::string& name);
int limit(char kind);
// points and values of the model; fill needs no library code. how: seed of the representations
void prepare();                 // in the parent: multiples of the base points of the current model curve
void fill(WS& w, u64 seed);
void load(WS& w, char kind, int i, u64 seed);        // a fresh value, no library code
void pair(WS& w, char kind, int i, int j, u64 seed); // two values which are chosen together
// state of an object as text; canonical (value only) or raw
std::string raw(const WS& w, char kind, int i);
std::string value(const WS& w, char kind, int i);
// run an operation: name, exception if any, raw and value of the destination, other results
struct Out { std::string op, raw, val, extra; };
void exec(const Op& o, Ctx& c, std::string& error);
std::string snapshot(const Op& o, const Ctx& c);  // raw results
bool sameValue(const std::string& a, const std::string& b); // of two snapshots which differ
std::string show(const std::string& snap);
}
