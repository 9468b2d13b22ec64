// C12: histories of big integer operations against GMP.
#include "bridge.h"
#include <string.h>
#include <limits.h>
#include <unistd.h>
#include <sys/wait.h>
#include <new>
#include <functional>
using namespace B;
using mie::Vuint; using mie::Vsint;
typedef mie::ZmZ<> Zm;

namespace {
const int CAP = MIE_ZM_VUINT_BIT_LEN / 64; // words
const int NU = 5, NS = 4, NZ = 4;
struct Mach {
	Arena ar;
	Vuint *u[NU];
	Vsint *s[NS];
	Zm *z[NZ];
	Z mu[NU], ms[NS], mz[NZ], mod;
	bool prime;
	const Step *st;
	std::string what;
	bool skipped;
};
Mach *m;
int A(int i) { return (int)m->st->u(i + 1); }
u64 IMM() { return m->st->u(5); }
#define LU(i) (*m->u[A(i)])
#define LS(i) (*m->s[A(i)])
#define LZ(i) (*m->z[A(i)])
#define MU(i) (m->mu[A(i)])
#define MS(i) (m->ms[A(i)])
#define MZ(i) (m->mz[A(i)])
#define SKIP do { m->skipped = true; return; } while (0)
void bad(const std::string& s) { violate("wrong-value", m->what + ": " + s); }

int words(const Z& x) { return x == 0 ? 1 : (int)((mpz_sizeinbase(x.get_mpz_t(), 2) + 63) / 64); }
bool fits(const Z& x) { return words(x) <= CAP; }
Z ul(u64 x) { return Z((unsigned long)x); }
Z sl(long long x) { return Z((long)x); }
void fdiv(Z& q, Z& r, const Z& x, const Z& y) { mpz_fdiv_qr(q.get_mpz_t(), r.get_mpz_t(), x.get_mpz_t(), y.get_mpz_t()); }
std::string dec(const Z& x) { return x.get_str(10); }
std::string hex(const Z& x) { return (x < 0 ? "-0x" : "0x") + Z(abs(x)).get_str(16); }

// f must end the process with status 1 and a message
void mustExit(const std::string& why, std::function<void()> f)
{
	int fd[2];
	if (pipe(fd)) violate("harness-error", "pipe");
	pid_t pid = fork();
	if (pid == 0) {
		dup2(fd[1], 1);
		dup2(fd[1], 2);
		close(fd[0]);
		close(fd[1]);
		f();
		_exit(77);
	}
	close(fd[1]);
	std::string out;
	char b[256];
	ssize_t n;
	while ((n = read(fd[0], b, sizeof b)) > 0) out.append(b, n);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	stat("fault.limit");
	if (WIFEXITED(st) && WEXITSTATUS(st) == 77) violate("not-detected", m->what + ": returned although " + why);
	if (!WIFEXITED(st) || WEXITSTATUS(st) == 0) violate("not-loud", m->what + strf(": %s ended the process with status 0x%x", why.c_str(), st));
	if (out.empty()) violate("not-loud", m->what + ": " + why + " ended the process without a message");
}
void cmp(int got, const Z& a, const Z& b) { int w = ::cmp(a, b); if ((got > 0) != (w > 0) || (got < 0) != (w < 0)) bad(strf("compare gave %d instead of %d", got, w)); }
template<class T> void rels(const T& x, const T& y, const Z& a, const Z& b)
{
	if ((x < y) != (a < b) || (x <= y) != (a <= b) || (x > y) != (a > b) || (x >= y) != (a >= b) || (x == y) != (a == b) || (x != y) != (a != b)) bad("comparison operators");
}
void text(const std::string& got, const Z& x, int base)
{
	std::string w = base == 16 ? hex(x) : dec(x);
	if (got == w) return;
	if (x == 0 && got == "-" + w) return; // negative zero
	bad("text is " + got + " instead of " + w);
}
// the memory needed by binary exponentiation must fit: what is multiplied has xn + yn words
bool powFits(const Z& x, const Z& e, Z& r)
{
	Z t = x;
	r = 1;
	size_t n = mpz_sizeinbase(e.get_mpz_t(), 2);
	if (e == 0) return true;
	for (size_t i = 0; i < n; i++) {
		if (mpz_tstbit(e.get_mpz_t(), i)) {
			if (words(r) + words(t) > CAP) return false;
			r *= t;
		}
		if (i + 1 == n) break;
		if (2 * words(t) > CAP) return false;
		t *= t;
	}
	// also if it starts with the highest bit of e
	for (size_t i = n; i-- > 0;) {
		t = i + 1 == n ? Z(1) : t;
		if (2 * words(t) > CAP) return false;
		t *= t;
		if (!mpz_tstbit(e.get_mpz_t(), i)) continue;
		if (words(t) + words(x) > CAP) return false;
		t *= x;
	}
	return true;
}
Z smallExp(u64 imm) { return ul((imm >> 3) % (imm % 8 < 4 ? 20 : imm % 8 < 7 ? 140 : 560)); }
size_t shiftBy(u64 imm) { static const int v[] = { 0, 1, 63, 64, 65, 127, 128, 192, 512, 575 }; return imm % 4 == 0 ? v[(imm >> 2) % 10] : (imm >> 2) % (imm % 4 == 1 ? 64 : 580); }

struct Op { const char *name, *sig; std::function<void()> run; };
std::vector<Op> ops;
std::map<std::string, int> idx;
struct Reg { Reg(const char *n, const char *s, std::function<void()> f) { Op o; o.name = n; o.sig = s; o.run = f; idx[n] = (int)ops.size(); ops.push_back(o); } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
// sig: u s z, lower case = destination, upper case = only read
#define OP(name, sig, ...) static Reg CAT(reg_, __COUNTER__)(name, sig, [] { __VA_ARGS__ });

// two values with a quotient, remainder, sum or difference which is a boundary biased pattern
bool related(Z& x, Z& y, u64 seed)
{
	Rng r(seed);
	const int yn = (int)r.range(1, CAP - 1);
	y = genWords(r, yn);
	if (r.chance(1, 4)) y = (Z(1) << r.range(1, 64 * yn)) - ul(r.below(3));
	if (y <= 0) y = 3;
	Z t;
	switch (r.below(6)) {
	case 0: x = genWords(r, CAP) - y; break;
	case 1: x = y + (long)r.below(5) - 2; break;
	case 2: t = Z(1) << r.below(64 * CAP); x = (t - y); if (x < 0) x += t * 2; x += (long)r.below(3) - 1; break;
	default: { // q y + rest
		Z q = genWords(r, (int)r.range(1, CAP));
		if (r.chance(1, 4)) q = (Z(1) << r.range(0, 130)) + (long)r.below(3) - 1;
		const Z rest = r.chance(1, 3) ? Z(0) : r.chance(1, 2) ? Z(y - 1 - ul(r.below(2))) : Z(genWords(r, CAP) % y);
		x = q * y + rest;
		if (!fits(x)) x = (x >> (int)(mpz_sizeinbase(x.get_mpz_t(), 2) - 64 * CAP)) / y * y + rest;
	}
	}
	if (r.chance(1, 12)) { x = genWords(r, CAP / 2); t = genWords(r, CAP); y = x == 0 ? t : Z(t / x); } // product
	return x >= 0 && y >= 0 && fits(x) && fits(y);
}
// ---- unsigned
OP("u.pair", "uu", if (A(0) == A(1)) SKIP; Z x; Z y; if (!related(x, y, IMM())) SKIP; MU(0) = x; MU(1) = y; LU(0) = vuint(x); LU(1) = vuint(y);)
OP("s.pair", "ss", if (A(0) == A(1)) SKIP; Z x; Z y; if (!related(x, y, IMM())) SKIP; if (IMM() & 1) x = -x; if (IMM() & 2) y = -y; MS(0) = x; MS(1) = y; LS(0) = vsint(x); LS(1) = vsint(y);)
OP("z.pair", "zz", if (A(0) == A(1)) SKIP; Z x; Z y; if (!related(x, y, IMM())) SKIP; x %= m->mod; y = IMM() & 1 ? Z(y % m->mod) : x == 0 ? Z(0) : IMM() & 2 ? Z(m->mod - x) : x; MZ(0) = x; MZ(1) = y; LZ(0) = Zm(vuint(x)); LZ(1) = Zm(vuint(y));)
OP("u.add", "uUU", Z t = MU(1) + MU(2); if (!fits(t)) SKIP; Vuint::add(LU(0), LU(1), LU(2)); MU(0) = t;)
OP("u.add32", "uU", u32 y = (u32)IMM(); Z t = MU(1) + ul(y); if (!fits(t)) SKIP; Vuint::add(LU(0), LU(1), y); MU(0) = t;)
OP("u.sub", "uUU", Z t = MU(1) - MU(2); if (t < 0) SKIP; Vuint::sub(LU(0), LU(1), LU(2)); MU(0) = t;)
OP("u.sub.below", "UU", if (MU(0) >= MU(1)) SKIP; mustExit("the difference is negative", [] { Vuint t; Vuint::sub(t, LU(0), LU(1)); });)
OP("u.sub.below.self", "UU", if (MU(0) >= MU(1)) SKIP; mustExit("the difference is negative", [] { if (IMM() & 1) LU(0) -= LU(1); else Vuint::sub(LU(1), LU(0), LU(1)); });)
OP("u.mul", "uUU", if (words(MU(1)) + words(MU(2)) > CAP) SKIP; Z t = MU(1) * MU(2); Vuint::mul(LU(0), LU(1), LU(2)); MU(0) = t;)
OP("u.mul1", "uU", if (words(MU(1)) + 1 > CAP) SKIP; Z t = MU(1) * ul(IMM()); Vuint::mul1(LU(0), LU(1), IMM()); MU(0) = t;)
OP("u.div", "uuUU", if (A(0) == A(1)) SKIP; Z x = MU(2); Z y = MU(3); bool r = Vuint::div(&LU(0), LU(1), LU(2), LU(3)); if (r != (y != 0)) bad("return value"); if (!r) return; fdiv(MU(0), MU(1), x, y);)
OP("u.mod", "uUU", Z x = MU(1); Z y = MU(2); bool r = Vuint::div(0, LU(0), LU(1), LU(2)); if (r != (y != 0)) bad("return value"); if (!r) return; Z q; fdiv(q, MU(0), x, y);)
OP("u.div1", "uU", u64 y = IMM(); if (!y) SKIP; Z q; Z r; fdiv(q, r, MU(1), ul(y)); u64 g = Vuint::div1(&LU(0), LU(1), y); if (ul(g) != r) bad("remainder"); MU(0) = q;)
OP("u.mod1", "U", u64 y = IMM(); if (!y) SKIP; Z q; Z r; fdiv(q, r, MU(0), ul(y)); if (ul(Vuint::div1(0, LU(0), y)) != r) bad("remainder");)
OP("u.shl", "uU", size_t n = shiftBy(IMM()); Z t = MU(1) << n; if (!fits(t) || words(MU(1)) + (int)(n / 64) > CAP) SKIP; Vuint::shl(LU(0), LU(1), n); MU(0) = t;)
OP("u.shr", "uU", size_t n = shiftBy(IMM()); Z t = MU(1) >> n; Vuint::shr(LU(0), LU(1), n); MU(0) = t;)
OP("u.shlBit", "uU", size_t n = IMM() % 63 + 1; Z t = MU(1) << n; if (!fits(t)) SKIP; Vuint::shlBit(LU(0), LU(1), n); MU(0) = t;)
OP("u.shrBit", "uU", size_t n = IMM() % 63 + 1; Z t = MU(1) >> n; Vuint::shrBit(LU(0), LU(1), n); MU(0) = t;)
OP("u.shlUnit", "uU", size_t n = IMM() % CAP; if (words(MU(1)) + (int)n > CAP) SKIP; Z t = MU(1) << (n * 64); Vuint::shlUnit(LU(0), LU(1), n); MU(0) = t;)
OP("u.shrUnit", "uU", size_t n = IMM() % (CAP + 2); Z t = MU(1) >> (n * 64); Vuint::shrUnit(LU(0), LU(1), n); MU(0) = t;)
OP("u.op+", "uUU", Z t = MU(1) + MU(2); if (!fits(t)) SKIP; LU(0) = LU(1) + LU(2); MU(0) = t;)
OP("u.op-", "uUU", Z t = MU(1) - MU(2); if (t < 0) SKIP; LU(0) = LU(1) - LU(2); MU(0) = t;)
OP("u.op*", "uUU", if (words(MU(1)) + words(MU(2)) > CAP) SKIP; Z t = MU(1) * MU(2); LU(0) = LU(1) * LU(2); MU(0) = t;)
OP("u.op/", "uUU", if (MU(2) == 0) SKIP; Z q; Z r; fdiv(q, r, MU(1), MU(2)); LU(0) = LU(1) / LU(2); MU(0) = q;)
OP("u.op%", "uUU", if (MU(2) == 0) SKIP; Z q; Z r; fdiv(q, r, MU(1), MU(2)); LU(0) = LU(1) % LU(2); MU(0) = r;)
OP("u.+=", "uU", Z t = MU(0) + MU(1); if (!fits(t)) SKIP; LU(0) += LU(1); MU(0) = t;)
OP("u.+=32", "u", u32 y = (u32)IMM(); Z t = MU(0) + ul(y); if (!fits(t)) SKIP; LU(0) += y; MU(0) = t;)
OP("u.-=", "uU", Z t = MU(0) - MU(1); if (t < 0) SKIP; LU(0) -= LU(1); MU(0) = t;)
OP("u.*=", "uU", if (words(MU(0)) + words(MU(1)) > CAP) SKIP; Z t = MU(0) * MU(1); LU(0) *= LU(1); MU(0) = t;)
OP("u./=", "uU", if (MU(1) == 0) SKIP; Z q; Z r; fdiv(q, r, MU(0), MU(1)); LU(0) /= LU(1); MU(0) = q;)
OP("u.%=", "uU", if (MU(1) == 0) SKIP; Z q; Z r; fdiv(q, r, MU(0), MU(1)); LU(0) %= LU(1); MU(0) = r;)
OP("u.<<", "uU", size_t n = shiftBy(IMM()); Z t = MU(1) << n; if (!fits(t) || words(MU(1)) + (int)(n / 64) > CAP) SKIP; LU(0) = LU(1) << n; MU(0) = t;)
OP("u.>>", "uU", size_t n = shiftBy(IMM()); Z t = MU(1) >> n; LU(0) = LU(1) >> n; MU(0) = t;)
OP("u.<<=", "u", size_t n = shiftBy(IMM()); Z t = MU(0) << n; if (!fits(t) || words(MU(0)) + (int)(n / 64) > CAP) SKIP; LU(0) <<= n; MU(0) = t;)
OP("u.>>=", "u", size_t n = shiftBy(IMM()); Z t = MU(0) >> n; LU(0) >>= n; MU(0) = t;)
OP("u.set", "u", LU(0).set(IMM()); MU(0) = ul(IMM());)
OP("u.assign", "u", LU(0) = Vuint(IMM()); MU(0) = ul(IMM());)
OP("u.clear", "u", LU(0).clear(); MU(0) = 0;)
OP("u.copy", "uU", LU(0) = LU(1); MU(0) = MU(1);)
OP("u.copyctor", "uU", Vuint t(LU(1)); LU(0) = t; MU(0) = MU(1);)
OP("u.set64", "u", Rng r(IMM()); u64 v[16]; size_t n = r.below(CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); LU(0).set((const uint64_t *)v, n); MU(0) = M::fromLimbs(v, n);)
OP("u.set32", "u", Rng r(IMM()); u64 v[16]; u32 w[32]; size_t n = r.below(2 * CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); for (int i = 0; i < 32; i++) w[i] = (u32)(v[i / 2] >> (i % 2 * 32)); LU(0).set(w, n); MU(0) = M::fromLimbs(v, 16) % (Z(1) << (32 * n));)
OP("u.ctor64", "u", Rng r(IMM()); u64 v[16]; size_t n = r.below(CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); LU(0) = Vuint((const uint64_t *)v, n); MU(0) = M::fromLimbs(v, n);)
OP("u.ctor32", "u", Rng r(IMM()); u64 v[16]; u32 w[32]; size_t n = r.below(2 * CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); for (int i = 0; i < 32; i++) w[i] = (u32)(v[i / 2] >> (i % 2 * 32)); LU(0) = Vuint(w, n); MU(0) = M::fromLimbs(v, 16) % (Z(1) << (32 * n));)
// a value in a special relation to another one
OP("u.near", "uU", Rng r(IMM()); Z t = MU(1); switch (r.below(7)) { case 0: t += 1; break; case 1: t -= 1; break; case 2: t = t * ul(r.next()) + ul(r.below(3)); break; case 3: t = t * genWords(r, 4) - ul(r.below(2)); break; case 4: t = t * genWords(r, 3) + t - 1; break; case 5: t = (Z(1) << mpz_sizeinbase(t.get_mpz_t(), 2)) - t; break; default: t = t >> r.below(200); break; } if (t < 0 || !fits(t)) SKIP; LU(0) = vuint(t); MU(0) = t;)
OP("u.str10", "uU", std::string s(IMM() % 3 == 0 ? IMM() / 3 % 30 : 0, '0'); s += dec(MU(1)); Z t = MU(1); switch (IMM() % 4) { case 0: LU(0).set(s); break; case 1: LU(0) = Vuint(s); break; case 2: LU(0).fromStr(s); break; default: LU(0).set(s, 10); } MU(0) = t;)
OP("u.str16", "uU", std::string d = MU(1).get_str(16); if (IMM() & 4) for (size_t i = 0; i < d.size(); i++) d[i] = (char)toupper(d[i]); std::string z(IMM() % 3 == 0 ? IMM() / 8 % 30 : 0, '0'); Z t = MU(1); switch (IMM() % 5) { case 0: LU(0).set("0x" + z + d); break; case 1: LU(0) = Vuint("0x" + z + d); break; case 2: LU(0).set(z + d, 16); break; case 3: LU(0).set("0x" + z + d, 16); break; default: LU(0).fromStr("0x" + z + d, 16); } MU(0) = t;)
OP("u.toString", "U", text(LU(0).toString(), MU(0), 10); text(LU(0).toString(16), MU(0), 16); text(LU(0).toStr(10), MU(0), 10);)
OP("u.compare", "UU", cmp(Vuint::compare(LU(0), LU(1)), MU(0), MU(1)); rels(LU(0), LU(1), MU(0), MU(1));)
OP("u.bits", "U", size_t n = MU(0) == 0 ? 0 : mpz_sizeinbase(MU(0).get_mpz_t(), 2); if (LU(0).bitLen() != n) bad(strf("bitLen is %d instead of %d", (int)LU(0).bitLen(), (int)n)); if (LU(0).isZero() != (MU(0) == 0)) bad("isZero"); for (size_t i = 0; i < 640; i++) if (LU(0).testBit(i) != (mpz_tstbit(MU(0).get_mpz_t(), i) != 0)) bad(strf("testBit(%d)", (int)i)); for (size_t i = 0; i < 12; i++) if (LU(0).getAtWithCheck(i) != (i < mpz_size(MU(0).get_mpz_t()) ? mpz_getlimbn(MU(0).get_mpz_t(), i) : 0)) bad(strf("getAtWithCheck(%d)", (int)i)); if ((int)LU(0).size() != words(MU(0))) bad("size");)
OP("u.power", "uU", Z e = smallExp(IMM()); Z r; if (!powFits(MU(1), e, r)) SKIP; LU(0) = mie::power(LU(1), (size_t)e.get_ui()); MU(0) = r;)
OP("u.power.int", "uU", Z e = smallExp(IMM()); Z r; if (!powFits(MU(1), e, r)) SKIP; LU(0) = mie::power(LU(1), (int)e.get_ui()); MU(0) = r;)
OP("u.power.big", "uUU", Z r; if (MU(2) > 600 || !powFits(MU(1), MU(2), r)) SKIP; LU(0) = mie::power(LU(1), LU(2)); MU(0) = r;)
OP("u.power.2", "u", Z e = ul(IMM() % (64 * CAP)); LU(0) = 2; if (2 * words(Z(1) << ((IMM() % (64 * CAP)) / 2 + 1)) > CAP || words(Z(1) << (e.get_ui() / 2)) * 2 > CAP) { LU(0) = 0; MU(0) = 0; return; } Z r; if (!powFits(2, e, r)) { MU(0) = 2; return; } LU(0) = mie::power(LU(0), (size_t)e.get_ui()); MU(0) = r;)
OP("u.exp.neg", "U", try { mie::power(LU(0), -1 - (int)(IMM() % 1000)); } catch (std::exception&) { return; } bad("negative exponent accepted");)
OP("u.capacity", "UU", Z a = MU(0); Z b = MU(1); if (fits(a * b)) SKIP; mustExit("the product has more bits than the capacity", [] { Vuint t; Vuint::mul(t, LU(0), LU(1)); });)
OP("u.capacity.add", "UU", if (fits(MU(0) + MU(1))) SKIP; mustExit("the sum has more bits than the capacity", [] { Vuint t; Vuint::add(t, LU(0), LU(1)); });)
OP("u.text.below", "U", int b = (int)(IMM() % 40) - 2; if (b == 10 || b == 16) SKIP; mustExit("the base is not supported", [b] { LU(0).toString(b); });)
OP("u.capacity.shl", "U", size_t n = shiftBy(IMM()); if (fits(MU(0) << n)) SKIP; mustExit("the result has more bits than the capacity", [] { Vuint t; Vuint::shl(t, LU(0), shiftBy(IMM())); });)
OP("u.stream", "uU", std::ostringstream os; if (IMM() & 1) os << std::hex; os << LU(1); text(os.str(), MU(1), IMM() & 1 ? 16 : 10); std::istringstream is(os.str() + (IMM() & 2 ? " 7" : "")); is >> LU(0); if (!is) bad("not read"); MU(0) = MU(1);)
// ---- signed
OP("s.add", "sSS", Z t = MS(1) + MS(2); if (!fits(t)) SKIP; Vsint::add(LS(0), LS(1), LS(2)); MS(0) = t;)
OP("s.sub", "sSS", Z t = MS(1) - MS(2); if (!fits(t)) SKIP; Vsint::sub(LS(0), LS(1), LS(2)); MS(0) = t;)
OP("s.mul", "sSS", if (words(MS(1)) + words(MS(2)) > CAP) SKIP; Z t = MS(1) * MS(2); Vsint::mul(LS(0), LS(1), LS(2)); MS(0) = t;)
OP("s.div", "ssSS", if (A(0) == A(1)) SKIP; Z x = MS(2); Z y = MS(3); Z q; Z t; if (y != 0) { fdiv(q, t, x, y); if (!fits(q)) SKIP; } bool r = Vsint::div(&LS(0), LS(1), LS(2), LS(3)); if (r != (y != 0)) bad("return value"); if (!r) return; MS(0) = q; MS(1) = t;)
OP("s.mod", "sSS", Z x = MS(1); Z y = MS(2); bool r = Vsint::div(0, LS(0), LS(1), LS(2)); if (r != (y != 0)) bad("return value"); if (!r) return; Z q; fdiv(q, MS(0), x, y);)
OP("s.op+", "sSS", Z t = MS(1) + MS(2); if (!fits(t)) SKIP; LS(0) = LS(1) + LS(2); MS(0) = t;)
OP("s.op-", "sSS", Z t = MS(1) - MS(2); if (!fits(t)) SKIP; LS(0) = LS(1) - LS(2); MS(0) = t;)
OP("s.op*", "sSS", if (words(MS(1)) + words(MS(2)) > CAP) SKIP; Z t = MS(1) * MS(2); LS(0) = LS(1) * LS(2); MS(0) = t;)
OP("s.op/", "sSS", if (MS(2) == 0) SKIP; Z q; Z r; fdiv(q, r, MS(1), MS(2)); LS(0) = LS(1) / LS(2); MS(0) = q;)
OP("s.op%", "sSS", if (MS(2) == 0) SKIP; Z q; Z r; fdiv(q, r, MS(1), MS(2)); LS(0) = LS(1) % LS(2); MS(0) = r;)
OP("s.+=", "sS", Z t = MS(0) + MS(1); if (!fits(t)) SKIP; LS(0) += LS(1); MS(0) = t;)
OP("s.-=", "sS", Z t = MS(0) - MS(1); if (!fits(t)) SKIP; LS(0) -= LS(1); MS(0) = t;)
OP("s.*=", "sS", if (words(MS(0)) + words(MS(1)) > CAP) SKIP; Z t = MS(0) * MS(1); LS(0) *= LS(1); MS(0) = t;)
OP("s./=", "sS", if (MS(1) == 0) SKIP; Z q; Z r; fdiv(q, r, MS(0), MS(1)); LS(0) /= LS(1); MS(0) = q;)
OP("s.%=", "sS", if (MS(1) == 0) SKIP; Z q; Z r; fdiv(q, r, MS(0), MS(1)); LS(0) %= LS(1); MS(0) = r;)
OP("s.neg", "sS", Z t = -MS(1); Vsint::neg(LS(0), LS(1)); MS(0) = t;)
OP("s.op-x", "sS", Z t = -MS(1); LS(0) = -LS(1); MS(0) = t;)
OP("s.shl", "sS", size_t n = shiftBy(IMM()); Z t = MS(1) << n; if (!fits(t) || words(MS(1)) + (int)(n / 64) > CAP) SKIP; switch (IMM() % 3) { case 0: Vsint::shl(LS(0), LS(1), n); break; case 1: LS(0) = LS(1) << n; break; default: LS(0) = LS(1); LS(0) <<= n; } MS(0) = t;)
OP("s.shr", "sS", size_t n = shiftBy(IMM()); if (MS(1) < 0) SKIP; Z t = MS(1) >> n; switch (IMM() % 3) { case 0: Vsint::shr(LS(0), LS(1), n); break; case 1: LS(0) = LS(1) >> n; break; default: LS(0) = LS(1); LS(0) >>= n; } MS(0) = t;)
OP("s.shr.neg", "S", if (MS(0) >= 0) SKIP; mustExit("the value is negative", [] { Vsint t; Vsint::shr(t, LS(0), shiftBy(IMM())); });)
OP("s.copy", "sS", LS(0) = LS(1); MS(0) = MS(1);)
OP("s.setU", "sU", LS(0).set(LU(1)); MS(0) = MU(1);)
OP("s.ctorU", "sU", LS(0) = Vsint(LU(1)); MS(0) = MU(1);)
OP("s.get", "uS", LU(0) = LS(1).get(); MU(0) = abs(MS(1));)
OP("s.abs", "uS", if (IMM() & 1) LU(0) = LS(1).abs(); else Vsint::absolute(LU(0), LS(1)); MU(0) = abs(MS(1));)
OP("s.int", "s", int x = IMM() % 5 == 0 ? INT_MIN : IMM() % 5 == 1 ? INT_MAX : (int)(IMM() / 5); LS(0) = Vsint(x); MS(0) = sl(x);)
OP("s.set", "s", LS(0).set(IMM()); MS(0) = ul(IMM());)
OP("s.set64", "s", int64_t x = IMM() % 5 == 0 ? INT64_MIN : (int64_t)((IMM() / 5) << (IMM() % 7)); if (IMM() & 16) x = (int64_t)(0 - (u64)x); LS(0).set(x); MS(0) = sl(x);)
OP("s.setp", "s", Rng r(IMM()); u64 v[16]; size_t n = r.below(CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); LS(0).set((const uint64_t *)v, n); MS(0) = M::fromLimbs(v, n);)
OP("s.near", "sS", Rng r(IMM()); Z t = MS(1); switch (r.below(5)) { case 0: t += 1; break; case 1: t -= 1; break; case 2: t = -t; break; case 3: t = t * (long)(r.below(2000) - 1000) + (long)(r.below(3)) - 1; break; default: t = t * (genWords(r, 3) - genWords(r, 3)) + (long)(r.below(3)) - 1; break; } if (!fits(t)) SKIP; LS(0) = vsint(t); MS(0) = t;)
OP("s.clear", "s", LS(0).clear(); MS(0) = 0;)
OP("s.str10", "sS", std::string s = dec(abs(MS(1))); std::string z(IMM() % 3 == 0 ? IMM() / 3 % 30 : 0, '0'); s = (MS(1) < 0 ? "-" : "") + z + s; Z t = MS(1); switch (IMM() % 3) { case 0: LS(0).set(s); break; case 1: LS(0) = Vsint(s); break; default: LS(0).fromStr(s); } MS(0) = t;)
OP("s.str16", "sS", std::string d = Z(abs(MS(1))).get_str(16); std::string g = MS(1) < 0 ? "-" : ""; Z t = MS(1); switch (IMM() % 3) { case 0: LS(0).set(g + "0x" + d); break; case 1: LS(0) = Vsint(g + "0x00" + d); break; default: LS(0).fromStr(g + d, 16); } MS(0) = t;)
OP("s.toString", "S", text(LS(0).toString(), MS(0), 10); text(LS(0).toString(16), MS(0), 16); text(Vsint(LS(0)).toStr(10), MS(0), 10);)
OP("s.compare", "SS", cmp(Vsint::compare(LS(0), LS(1)), MS(0), MS(1)); rels(LS(0), LS(1), MS(0), MS(1)); if (LS(0).isZero() != (MS(0) == 0) || LS(0).isNegative() != (MS(0) < 0)) bad("isZero or isNegative"); if ((int)LS(0).size() != words(MS(0))) bad("size");)
OP("s.stream", "sS", std::ostringstream os; if (IMM() & 1) os << std::hex; os << LS(1); text(os.str(), MS(1), IMM() & 1 ? 16 : 10); std::istringstream is(os.str() + (IMM() & 2 ? " 7" : "")); is >> LS(0); if (!is) bad("not read"); MS(0) = MS(1);)
// ---- modulo m
OP("z.add", "zZZ", Z t = (MZ(1) + MZ(2)) % m->mod; Zm::add(LZ(0), LZ(1), LZ(2)); MZ(0) = t;)
OP("z.sub", "zZZ", Z t = (MZ(1) - MZ(2) + m->mod) % m->mod; Zm::sub(LZ(0), LZ(1), LZ(2)); MZ(0) = t;)
OP("z.mul", "zZZ", Z t = MZ(1) * MZ(2) % m->mod; Zm::mul(LZ(0), LZ(1), LZ(2)); MZ(0) = t;)
OP("z.neg", "zZ", Z t = (m->mod - MZ(1)) % m->mod; Zm::neg(LZ(0), LZ(1)); MZ(0) = t;)
OP("z.inv", "zZ", Z t; if (!mpz_invert(t.get_mpz_t(), MZ(1).get_mpz_t(), m->mod.get_mpz_t())) SKIP; Zm::inv(LZ(0), LZ(1)); MZ(0) = t;)
OP("z.inverse", "z", Z t; if (!mpz_invert(t.get_mpz_t(), MZ(0).get_mpz_t(), m->mod.get_mpz_t())) SKIP; LZ(0).inverse(); MZ(0) = t;)
OP("z.op/", "zZZ", Z t; if (!mpz_invert(t.get_mpz_t(), MZ(2).get_mpz_t(), m->mod.get_mpz_t())) SKIP; t = t * MZ(1) % m->mod; LZ(0) = LZ(1) / LZ(2); MZ(0) = t;)
OP("z./=", "zZ", Z t; if (!mpz_invert(t.get_mpz_t(), MZ(1).get_mpz_t(), m->mod.get_mpz_t())) SKIP; t = t * MZ(0) % m->mod; LZ(0) /= LZ(1); MZ(0) = t;)
OP("z.op+", "zZZ", Z t = (MZ(1) + MZ(2)) % m->mod; LZ(0) = LZ(1) + LZ(2); MZ(0) = t;)
OP("z.op-", "zZZ", Z t = (MZ(1) - MZ(2) + m->mod) % m->mod; LZ(0) = LZ(1) - LZ(2); MZ(0) = t;)
OP("z.op*", "zZZ", Z t = MZ(1) * MZ(2) % m->mod; LZ(0) = LZ(1) * LZ(2); MZ(0) = t;)
OP("z.op-x", "zZ", Z t = (m->mod - MZ(1)) % m->mod; LZ(0) = -LZ(1); MZ(0) = t;)
OP("z.+=", "zZ", Z t = (MZ(0) + MZ(1)) % m->mod; LZ(0) += LZ(1); MZ(0) = t;)
OP("z.-=", "zZ", Z t = (MZ(0) - MZ(1) + m->mod) % m->mod; LZ(0) -= LZ(1); MZ(0) = t;)
OP("z.*=", "zZ", Z t = MZ(0) * MZ(1) % m->mod; LZ(0) *= LZ(1); MZ(0) = t;)
OP("z.copy", "zZ", LZ(0) = LZ(1); MZ(0) = MZ(1);)
OP("z.setz", "zZ", LZ(0).set(LZ(1)); MZ(0) = MZ(1);)
OP("z.setU", "zU", LZ(0).set(LU(1)); MZ(0) = MU(1) % m->mod;)
OP("z.ctorU", "zU", LZ(0) = Zm(LU(1)); MZ(0) = MU(1) % m->mod;)
OP("z.get", "uZ", LU(0) = LZ(1).get(); MU(0) = MZ(1);)
OP("z.int", "z", int x = IMM() % 7 == 0 ? INT_MAX : (int)(IMM() / 7) >> (IMM() / 7 % 31); if (x < 0 && Z(-(long)x) > m->mod) x = -(x + 1); if (x == INT_MIN) x = 5; if (IMM() & 1) LZ(0) = Zm(x); else LZ(0).set(x); MZ(0) = ((sl(x) % m->mod) + m->mod) % m->mod;)
OP("z.int.low", "z", int x = IMM() % 4 == 0 ? INT_MIN : -(int)(IMM() / 4 % INT_MAX) - 1; if (x != INT_MIN && Z(-(long)x) <= m->mod) SKIP; mustExit("the value is below -m", [] { int x = IMM() % 4 == 0 ? INT_MIN : -(int)(IMM() / 4 % INT_MAX) - 1; Zm t(x); });)
OP("z.str", "zU", Z t = MU(1) % m->mod; if (IMM() & 1) LZ(0).set(IMM() & 2 ? hex(MU(1)) : dec(MU(1))); else LZ(0) = Zm(IMM() & 2 ? hex(MU(1)) : dec(MU(1))); MZ(0) = t;)
OP("z.set64", "z", Rng r(IMM()); u64 v[16]; size_t n = r.below(CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); LZ(0).set((const uint64_t *)v, n); MZ(0) = M::fromLimbs(v, n) % m->mod;)
OP("z.set32", "z", Rng r(IMM()); u64 v[16]; u32 w[32]; size_t n = r.below(2 * CAP + 1); Z t = genWords(r, CAP); M::toLimbs(v, 16, t); for (int i = 0; i < 32; i++) w[i] = (u32)(v[i / 2] >> (i % 2 * 32)); LZ(0).set(w, n); MZ(0) = M::fromLimbs(v, 16) % (Z(1) << (32 * n)) % m->mod;)
OP("z.clear", "z", LZ(0).clear(); MZ(0) = 0;)
OP("z.toString", "Z", text(LZ(0).toString(), MZ(0), 10); text(LZ(0).toString(16), MZ(0), 16); std::ostringstream os; os << LZ(0); text(os.str(), MZ(0), 10);)
OP("z.compare", "ZZ", cmp(Zm::compare(LZ(0), LZ(1)), MZ(0), MZ(1)); rels(LZ(0), LZ(1), MZ(0), MZ(1)); if (LZ(0).isZero() != (MZ(0) == 0)) bad("isZero"); if ((int)LZ(0).size() != words(MZ(0))) bad("size"); for (int i = 0; i < (int)LZ(0).size(); i++) { const Zm& c = LZ(0); if (c[i] != (i < (int)mpz_size(MZ(0).get_mpz_t()) ? mpz_getlimbn(MZ(0).get_mpz_t(), i) : 0)) bad("word"); } if (val(Zm::getModulo()) != m->mod) bad("getModulo");)
OP("z.power", "zZ", size_t e = IMM() >> (IMM() % 61); Z t; Z x = ul(e); mpz_powm(t.get_mpz_t(), MZ(1).get_mpz_t(), x.get_mpz_t(), m->mod.get_mpz_t()); LZ(0) = mie::power(LZ(1), e); MZ(0) = t;)
OP("z.power.int", "zZ", int e = (int)(IMM() % INT_MAX) >> (IMM() % 29); Z t; Z x = sl(e); mpz_powm(t.get_mpz_t(), MZ(1).get_mpz_t(), x.get_mpz_t(), m->mod.get_mpz_t()); LZ(0) = mie::power(LZ(1), e); MZ(0) = t;)
OP("z.power.big", "zZU", Z t; mpz_powm(t.get_mpz_t(), MZ(1).get_mpz_t(), MU(2).get_mpz_t(), m->mod.get_mpz_t()); if (IMM() & 1) LZ(0) = mie::power(LZ(1), LU(2)); else LZ(0) = mie::power(LZ(1), MU(2)); MZ(0) = t;)
OP("z.fermat", "Z", if (!m->prime || MZ(0) == 0) SKIP; Vuint e = Zm::getModulo(); e -= 1; if (mie::power(LZ(0), e) != Zm(1)) bad("x^(m-1) is not 1");)

char low(char c) { return c | 32; }
int lim(char c) { c = low(c); return c == 'u' ? NU : c == 's' ? NS : NZ; }
void *addr(char c, int i) { c = low(c); return c == 'u' ? (void *)m->u[i] : c == 's' ? (void *)m->s[i] : (void *)m->z[i]; }
Z& model(char c, int i) { c = low(c); return c == 'u' ? m->mu[i] : c == 's' ? m->ms[i] : m->mz[i]; }
void verify(char c, int i)
{
	const Z& w = model(c, i);
	c = low(c);
	Z g;
	bool n;
	if (c == 'u') { if (m->u[i]->size() > (size_t)CAP) bad("the size is more than the capacity"); g = val(*m->u[i]); n = normal(*m->u[i]); }
	else if (c == 's') { if (m->s[i]->size() > (size_t)CAP) bad("the size is more than the capacity"); const Vsint& s = *m->s[i]; g = val(s); n = normal(s.get()); }
	else { if (m->z[i]->size() > (size_t)CAP) bad("the size is more than the capacity"); const Zm& z = *m->z[i]; g = val(z.get()); n = normal(z.get()); }
	if (g != w) bad(strf("%c%d is ", c, i) + zhex(g) + " instead of " + zhex(w));
	if (!n) violate("not-canonical", m->what + strf(": %c%d is not normalized", c, i));
}
Z initial(Rng& r)
{
	if (r.chance(1, 8)) return Z((unsigned long)r.below(4));
	return genWords(r, r.chance(1, 2) ? 5 : CAP);
}
const char *const primes[] = {
	"2", "3", "5", "7", "fb", "10001", "7fffffff", "ffffffc5", "fffffffb", "1fffffffffffffff", "ffffffffffffffc5", "8000000000000000000000000000001d",
	"ffffffffffffffffffffffffffffff61", "1000000000000000000000000000000000000000000000000d", "ffffffffffffffffffffffffffffffffffffffffffffff13",
	"7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", "ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff43",
	"2523648240000001ba344d80000000086121000000000013a700000000000013", "2523648240000001ba344d8000000007ff9f800000000010a10000000000000d",
	"100000000000000000000000000000000000000000000000000000000000000000000000000000000",
};
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int i = 0; i < NU; i++) m->u[i] = (Vuint *)m->ar.add(strf("u%d", i), sizeof(Vuint), lay * 31 + i);
	for (int i = 0; i < NS; i++) m->s[i] = (Vsint *)m->ar.add(strf("s%d", i), sizeof(Vsint), lay * 37 + i);
	for (int i = 0; i < NZ; i++) m->z[i] = (Zm *)m->ar.add(strf("z%d", i), sizeof(Zm), lay * 41 + i);
	// before any initialization the primitives are the portable ones; a later step replaces them in the middle of the history
	if (!p.hi("late")) initLib(p);
	else stat("before.init");
	m->mod = hexZ(p.hs("mod"));
	m->prime = mpz_probab_prime_p(m->mod.get_mpz_t(), 20) != 0;
	Zm::setModulo(vuint(m->mod));
	Rng vr(p.hu("values"));
	for (int i = 0; i < NU; i++) { m->mu[i] = initial(vr); new (m->u[i]) Vuint(vuint(m->mu[i])); }
	for (int i = 0; i < NS; i++) { m->ms[i] = initial(vr); if (vr.chance(1, 2)) m->ms[i] = -m->ms[i]; new (m->s[i]) Vsint(vsint(m->ms[i])); }
	for (int i = 0; i < NZ; i++) { m->mz[i] = initial(vr) % m->mod; if (vr.chance(1, 5)) m->mz[i] = m->mod - 1; new (m->z[i]) Zm(vuint(m->mz[i])); }
	m->ar.start(lay);
	int done = 0;
	for (size_t i = 0; i < p.steps.size(); i++) {
		const Step& st = p.steps[i];
		m->st = &st;
		setStep(i);
		if (st.op() == "reinit") {
			Cfg c = cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		if (st.op() == "garbage") {
			poisonBelow(st.u(1), 48 << 10);
			alloc::poison = (unsigned char)st.u(1);
			stat("fault.garbage");
			continue;
		}
		std::map<std::string, int>::iterator it = idx.find(st.op());
		if (it == idx.end()) continue;
		const Op& o = ops[it->second];
		const size_t n = strlen(o.sig);
		bool ok = true;
		std::string rel = o.name;
		for (size_t j = 0; j < n; j++) {
			if (A((int)j) >= lim(o.sig[j])) { ok = false; break; }
			const Z& v = model(o.sig[j], A((int)j));
			rel += strf(" %s%d", v < 0 ? "-" : "", v == 0 ? 0 : words(v));
			for (size_t k = 0; k < j; k++) if (addr(o.sig[j], A((int)j)) == addr(o.sig[k], A((int)k))) rel += strf("=%d", (int)k);
		}
		if (!ok) continue;
		m->what = strf("step %d ", (int)i) + o.name + strf(" %d %d %d %d", A(0), A(1), A(2), A(3));
		for (size_t j = 0; j < n; j++) m->what += strf(" [%s]", zhex(model(o.sig[j], A((int)j))).c_str());
		m->skipped = false;
		o.run();
		std::vector<void *> d;
		for (size_t j = 0; j < n; j++) {
			verify(o.sig[j], A((int)j));
			if (o.sig[j] >= 'a') d.push_back(addr(o.sig[j], A((int)j)));
		}
		std::sort(d.begin(), d.end());
		m->ar.check(m->what, d);
		if (m->skipped) { stat("skipped"); continue; }
		cover(rel);
		ev(o.name, done);
		for (size_t j = 0; j < n; j++) ev(zhex(model(o.sig[j], A((int)j))));
		done++;
		stat("ops");
	}
	if (done >= 3) nontrivial();
	if (done) sample(strf("%d operations, last: ", done) + m->what);
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
	p.set("late", r.chance(1, 3) ? 1 : 0);
	Z mod;
	const int np = (int)(sizeof(primes) / sizeof(*primes)) - 1;
	if (r.chance(2, 3)) mod = hexZ(primes[r.below(np)]);
	else mod = genWords(r, 4);
	if (mod < 2) mod = 2;
	p.set("mod", zhex(mod));
	int nclients = (int)r.range(1, 4), len = (int)r.range(3, thorough ? 200 : 80);
	std::vector<int> use;
	int keep = (int)r.range(1, 10);
	for (size_t i = 0; i < ops.size(); i++) {
		bool lim = strstr(ops[i].name, ".below") || strstr(ops[i].name, "capacity") || strstr(ops[i].name, ".shr.neg") || strstr(ops[i].name, ".low");
		if (r.chance(lim ? 1 : keep, 10)) use.push_back((int)i);
	}
	if (use.size() < 3) for (size_t i = 0; i < ops.size(); i++) use.push_back((int)i);
	bool chain = r.chance(1, 2);
	int alias = (int)r.below(3), faults = (int)r.below(4), fresh = (int)r.below(4);
	std::vector<std::map<char, int> > last(nclients);
	for (int i = 0; i < len; i++) {
		int c = (int)r.below(nclients);
		if (faults && r.chance(1, 12)) {
			if (r.chance(2, 3)) p.add(StepB("garbage")(r.below(1000)));
			else p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2)));
		}
		// new values now and then, results tend to overflow or to vanish
		int oi = r.chance(1, 8) ? idx[r.chance(1, 2) ? "u.set64" : r.chance(1, 2) ? "u.near" : r.chance(1, 2) ? "s.near" : "s.setp"] : use[r.below(use.size())];
		const Op& o = ops[oi];
		StepB b(o.name);
		const size_t n = strlen(o.sig);
		int a[4] = { 0, 0, 0, 0 };
		for (size_t j = 0; j < n; j++) {
			char k = low(o.sig[j]);
			a[j] = (int)r.below(lim(k));
			if (chain && j > 0 && last[c].count(k) && r.chance(1, 2)) a[j] = last[c][k];
			if (j && low(o.sig[0]) == k && r.chance(alias, 4)) a[j] = a[r.below(j)];
		}
		if (n == 4 && a[0] == a[1]) a[1] = (a[0] + 1) % lim(o.sig[1]);
		if (fresh && r.chance(fresh, 5)) { // operands which are chosen together
			int i1 = -1, i2 = -1;
			for (size_t j = 0; j < n; j++) for (size_t q = j + 1; q < n; q++) if (low(o.sig[j]) == low(o.sig[q]) && a[j] != a[q]) { i1 = (int)j; i2 = (int)q; }
			if (i1 >= 0) p.add(StepB(std::string(1, low(o.sig[i1])) + ".pair")(a[i1])(a[i2])(0)(0)(r.next() >> 8));
		}
		for (int j = 0; j < 4; j++) b(a[j]);
		u64 im = r.next() >> (r.chance(1, 3) ? r.below(64) : 0);
		if (r.chance(1, 12)) im = ~0ULL >> r.below(64);
		if (r.chance(1, 12)) im = 1ULL << r.below(64);
		b(im);
		if (o.sig[0] >= 'a') last[c][o.sig[0]] = a[0];
		p.add(b);
	}
}
World w("vint", gen, exec, initModel);
}
