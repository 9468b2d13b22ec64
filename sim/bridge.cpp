#include "bridge.h"
#include <string.h>
#include <sys/mman.h>

namespace B {
Z genWords(Rng& r, int words)
{
	int n = (int)r.range(1, words);
	uint64_t v[16];
	for (int i = 0; i < n; i++) {
		switch (r.below(8)) {
		case 0: v[i] = 0; break;
		case 1: v[i] = ~0ULL; break;
		case 2: v[i] = 1ULL << r.below(64); break;
		case 3: v[i] = ~0ULL << r.below(64); break;
		case 4: v[i] = r.below(4); break;
		case 5: v[i] = ~0ULL - r.below(3); break;
		default: v[i] = r.next(); break;
		}
	}
	if (r.chance(1, 3)) v[n - 1] >>= r.below(64);
	return M::fromLimbs(v, n);
}
Z genRawFp(Rng& r)
{
	const Z& p = M::C.p;
	Z x;
	switch (r.below(16)) {
	case 0: return Z(0);
	case 14: case 15: { // only one or two of the words are not zero
		uint64_t v[4] = { 0, 0, 0, 0 };
		for (int k = (int)r.range(1, 2); k > 0; k--) {
			const int i = (int)r.below(4);
			switch (r.below(4)) {
			case 0: v[i] = 1; break;
			case 1: v[i] = ~0ULL; break;
			case 2: v[i] = 1ULL << r.below(64); break;
			default: v[i] = r.next() >> r.below(64);
			}
		}
		const Z top = p >> 192;
		if (M::fromLimbs(v, 4) >= p) v[3] %= mpz_get_ui(top.get_mpz_t());
		return M::fromLimbs(v, 4);
	}
	case 1: return M::md(M::C.R * Z((unsigned long)r.below(4)));       // value 0..3
	case 2: return M::md(-M::C.R * Z((unsigned long)r.range(1, 3)));   // value p - 1 ..
	case 3: return Z((unsigned long)r.below(4));                       // raw small
	case 4: return Z(p - 1 - (unsigned long)r.below(4));               // raw large
	case 5: return M::md(p / 2 + (unsigned long)r.below(3));
	case 6: case 7: return M::md(genWords(r, 4));
	case 8: return M::md(-genWords(r, 4));
	case 9: x = (p / (1 + r.below(6))) + (unsigned long)r.below(3); return M::md(x);
	default: break;
	}
	uint64_t v[4] = { r.next(), r.next(), r.next(), r.next() };
	return M::md(M::fromLimbs(v, 4));
}
void genRawFps(Rng& r, bn::Fp *x, int n)
{
	const int how = (int)r.below(8);
	for (int i = 0; i < n; i++) {
		Z v;
		if (how == 0 && r.chance(9, 10)) v = M::C.p - 1 - (unsigned long)r.below(3); // all as large as possible
		else if (how == 1) { uint64_t w[4] = { r.next(), r.next(), r.next(), r.next() }; v = M::C.p - 1 - M::md(M::fromLimbs(w, 4)) / (8 << r.below(20)); }
		else if (how == 2 && r.chance(3, 4)) v = 0;
		else if (how == 3 && r.chance(3, 4)) v = (unsigned long)r.below(3);
		else v = genRawFp(r);
		setRaw(x[i], v);
	}
}
static Z inv(const Z& a, const Z& n)
{
	Z t;
	return mpz_invert(t.get_mpz_t(), a.get_mpz_t(), n.get_mpz_t()) ? t : Z(0);
}
static Z target(Rng& r, const Z& lim)
{
	const Z x = r.chance(1, 6) ? Z(lim - 1 - (unsigned long)r.below(3)) : genWords(r, 4);
	return M::mdm(x, lim);
}
static Z odd(Rng& r, int bits) // random, of at most that many bits, no factor with 2
{
	uint64_t v[4] = { r.next() | 1, r.next(), r.next(), r.next() };
	const Z x = M::fromLimbs(v, 4) % (Z(1) << bits);
	return x == 0 ? Z(1) : x;
}
void genPair(Rng& r, Z& x, Z& y)
{
	const Z& p = M::C.p;
	for (int tries = 0; tries < 20; tries++) {
		switch (r.below(10)) {
		case 0: y = genRawFp(r); x = r.chance(1, 2) ? M::md(p - y + (long)r.below(5) - 2) : M::md(target(r, 2 * p) - y); return; // x + y
		case 1: y = genRawFp(r); x = M::md(y + (r.chance(1, 2) ? Z((long)r.below(5) - 2) : target(r, p))); return;             // x - y
		case 2: y = genRawFp(r); x = r.chance(1, 3) ? M::md(-y) : r.chance(1, 2) ? y : M::md(p - 2 * y); return;
		case 3: // the upper words of the product
			y = r.chance(1, 2) ? genRawFp(r) : odd(r, (int)r.range(1, 253));
			if (y == 0 || y >= p) continue;
			x = genWords(r, 8) / y;
			if (x >= p) continue;
			return;
		case 4: case 5: { // result of the Montgomery product
			y = genRawFp(r);
			if (y == 0) continue;
			x = M::md(M::md(target(r, p) * M::C.R) * inv(y, p));
			return;
		}
		case 6: case 7: case 8: { // after i rounds of x * y
			const int i = (int)r.range(1, 3);
			const Z w = Z(1) << (64 * i);
			const Z lo = odd(r, 64 * i), u = target(r, 2 * p), pi = inv(p, lo);
			if (lo > 1 && pi == 0) continue;
			// Q = u w / p mod lo in (u w / p - lo, u w / p]
			Z q = lo == 1 ? Z(0) : Z(u * w % lo * pi % lo), hi = u * w / p;
			q += (hi - q - M::mdm(hi - q, lo));
			if (q < 0 || q >= w) continue;
			x = (u * w - q * p) / lo;
			if (x < 0 || x >= p || x * lo + q * p != u * w) continue;
			y = lo;
			for (int j = i; j < 4; j++) y += Z((unsigned long)(r.chance(1, 4) ? ~0ULL : r.next())) << (64 * j);
			if (y >= p) y = lo + (M::md(y) / w * w);
			if (y >= p) y = lo;
			if (r.chance(1, 3)) std::swap(x, y);
			return;
		}
		default: { // before the reduction step of round i + 1: x * y[i] added, with a small word y[i]
			const int i = (int)r.range(1, 3);
			const Z w = Z(1) << (64 * i);
			const Z lo = odd(r, 64 * i) + (Z((unsigned long)r.below(6)) << (64 * i));
			const Z v = genWords(r, 5) % (p << 4), pi = inv(p, lo);
			if (lo > 1 && pi == 0) continue;
			Z q = lo == 1 ? Z(0) : Z(v * w % lo * pi % lo), hi = v * w / p;
			q += (hi - q - M::mdm(hi - q, lo));
			for (; q >= w; q -= lo) ;
			if (q < 0) continue;
			x = (v * w - q * p) / lo;
			if (x < 0 || x >= p) continue;
			y = lo;
			if (y >= p) continue;
			if (r.chance(1, 3)) std::swap(x, y);
			return;
		}
		}
	}
	x = genRawFp(r);
	y = genRawFp(r);
}
static Z changeWord(Rng& r, const Z& value)
{
	const Z x = M::md(value * M::C.R);
	for (int k = 0; k < 8; k++) {
		uint64_t v[4];
		M::toLimbs(v, 4, x);
		const int i = (int)r.below(4);
		v[i] = r.chance(1, 2) ? v[i] ^ (1ULL << r.below(64)) : r.chance(1, 2) ? v[i] ^ (r.next() >> r.below(64)) : r.next();
		const Z y = M::fromLimbs(v, 4);
		if (y < M::C.p && y != x) return M::fmul(y, M::C.Rinv);
	}
	return M::md(value + 1);
}
void genPairs(Rng& r, bn::Fp *x, bn::Fp *y, int n)
{
	const int how = (int)r.below(3);
	Z a, b;
	for (int i = 0; i < n; i++) {
		if (how == 0 && i) { setRaw(x[i], a); setRaw(y[i], b); continue; }
		if (how == 1 && i && r.chance(1, 2)) { setRaw(x[i], genRawFp(r)); setRaw(y[i], genRawFp(r)); continue; }
		genPair(r, a, b);
		setRaw(x[i], a);
		setRaw(y[i], b);
	}
	if (r.chance(1, 12)) { // equal except for one word
		for (int i = 0; i < n; i++) y[i] = x[i];
		const int i = (int)r.below(n);
		const Z t = M::md(changeWord(r, M::fmul(M::fromLimbs(&x[i][0], 4), M::C.Rinv)) * M::C.R);
		setRaw(y[i], t);
		return;
	}
	if (n > 1 && r.chance(1, 4)) { // cross terms
		genPair(r, a, b);
		setRaw(x[0], a);
		setRaw(y[n / 2], b);
	}
}
Z genDouble(Rng& r)
{
	const Z& p = M::C.p;
	if (r.chance(1, 4)) return M::mdm(genWords(r, 8), M::C.PN);
	if (r.chance(1, 4)) { Z x, y; genPair(r, x, y); return x * y; }
	for (int tries = 0; tries < 10; tries++) {
		const int i = (int)r.range(1, 4);
		const Z w = Z(1) << (64 * i);
		const Z u = genWords(r, 8 - i + (i > 1 ? 1 : 0));
		const Z t = u * w - (r.chance(1, 4) ? Z(w - 1) : odd(r, 64 * i)) * p;
		if (t >= 0 && t < M::C.PN) return t;
	}
	return M::mdm(-Z((unsigned long)r.below(5)), M::C.PN);
}
bool almostOn(Rng& r, M::P1& p)
{
	if (p.inf) return false;
	const Z w = M::md(p.x * p.x * p.x + M::C.b);
	for (int k = 0; k < 8; k++) {
		Z y;
		if (!M::fsqrt(y, r.chance(1, 4) ? Z(M::md(-w)) : changeWord(r, w))) continue;
		p = M::P1(p.x, y);
		return !M::onCurve(p);
	}
	return false;
}
bool almostOn(Rng& r, M::P2& p)
{
	if (p.inf) return false;
	const M::F2 w = p.x * p.x * p.x + M::C.bxi;
	for (int k = 0; k < 8; k++) {
		M::F2 t = w, y;
		switch (r.below(5)) {
		case 0: t.a = changeWord(r, t.a); break;
		case 1: t.b = changeWord(r, t.b); break;
		case 2: t.a = M::fmul(genRawFp(r), M::C.Rinv); break;
		case 3: t.b = M::fmul(genRawFp(r), M::C.Rinv); break;
		default: if (r.chance(1, 2)) t.b = M::fneg(t.b); else t.a = M::fneg(t.a);
		}
		if (t == w || !M::sqrt2(y, t)) continue;
		p = M::P2(p.x, y);
		return !M::onCurve(p);
	}
	return false;
}
bool genJac(Rng& r, M::P1& p, Z& z)
{
	for (int k = 0; k < 6; k++) {
		z = r.chance(1, 3) ? Z(1) : M::fmul(genRawFp(r), M::C.Rinv);
		if (z == 0) continue;
		const Z x = M::fmul(M::fmul(genRawFp(r), M::C.Rinv), M::finv(M::fmul(z, z)));
		Z y;
		if (!M::fsqrt(y, M::md(x * x * x + M::C.b))) continue;
		p = M::P1(x, r.chance(1, 2) ? y : M::fneg(y));
		return true;
	}
	return false;
}
bool genJac(Rng& r, M::P2& p, M::F2& z)
{
	for (int k = 0; k < 6; k++) {
		z = r.chance(1, 3) ? M::F2(1) : M::F2(M::fmul(genRawFp(r), M::C.Rinv), r.chance(1, 3) ? Z(0) : M::fmul(genRawFp(r), M::C.Rinv));
		if (M::isZero(z)) continue;
		const M::F2 x = M::F2(M::fmul(genRawFp(r), M::C.Rinv), M::fmul(genRawFp(r), M::C.Rinv)) * M::inv(z * z);
		M::F2 y;
		if (!M::sqrt2(y, x * x * x + M::C.bxi)) continue;
		p = M::P2(x, r.chance(1, 2) ? y : M::F2(0) - y);
		return true;
	}
	return false;
}
Z genScalar(Rng& r)
{
	Z x;
	switch (r.below(14)) {
	case 0: return Z((unsigned long)r.below(4));
	case 1: return Z((unsigned long)r.below(40));
	case 2: return Z(M::C.r - 3 + (unsigned long)r.below(7));
	case 3: x = Z(1) << (unsigned)r.below(257); return Z(x - 1 + (unsigned long)r.below(3));
	case 4: return genWords(r, 4);
	case 5: return genWords(r, 5);
	case 6: return Z((unsigned long)r.next());
	case 7: x = (unsigned long)(r.next() >> 33); return x;
	case 8: return Z((M::C.r - 1) / 2 + (unsigned long)r.below(3));
	case 9: return Z(M::C.r * (unsigned long)r.below(5) + (unsigned long)r.below(4));
	default: break;
	}
	uint64_t v[4] = { r.next(), r.next(), r.next(), r.next() };
	return M::mdm(M::fromLimbs(v, 4), M::C.r);
}
void genCfg(Rng& r, Plan& p)
{
	p.set("b", SNARK ? (r.chance(1, 2) ? 3 : 82) : 2);
	static const int modes[] = { -1, -1, 0, 1 };
	p.set("mode", modes[r.below(4)]);
	p.set("mulx", (int)r.below(2));
	M::init(SNARK, (int)p.hi("b"));
}
Cfg cfgOf(const Plan& p)
{
	Cfg c;
	c.b = (int)p.hi("b", SNARK ? 3 : 2);
	c.mode = (int)p.hi("mode", -1);
	c.mulx = (int)p.hi("mulx", 1);
	return c;
}
void initModel(const Plan& p)
{
	M::init(SNARK, cfgOf(p).b);
}
void initLib(const Cfg& c)
{
#ifdef BN_SUPPORT_SNARK
	bn::Param::init(c.b == 3 ? bn::CurveSNARK1 : bn::CurveSNARK2, c.mode, c.mulx != 0);
#else
	bn::Param::init(c.mode, c.mulx != 0);
#endif
}
}

Arena::Arena() : size(0)
{
	const size_t N = 1 << 18;
	mem = (unsigned char *)mmap((void *)0x610000000000ULL, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
	shadow = (unsigned char *)mmap(0, N, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (mem == MAP_FAILED || shadow == MAP_FAILED) violate("harness-error", "mmap");
}
void *Arena::add(const std::string& name, size_t n, u64 seed)
{
	size += 64 + (seed % 4) * 16; // guard; objects are aligned to 16 like the library asks for
	Slot s;
	s.off = size;
	s.n = n;
	s.name = name;
	slots.push_back(s);
	fillPattern(mem + size, (n + 7) & ~(size_t)7, seed ^ 77);
	size += (n + 15) & ~(size_t)15;
	return mem + s.off;
}
void Arena::start(u64 seed)
{
	size_t end = 0;
	for (size_t i = 0; i < slots.size(); i++) { // guards only
		for (size_t k = end; k < slots[i].off; k++) mem[k] = (unsigned char)(k * 37 + seed);
		end = slots[i].off + slots[i].n;
	}
	for (size_t k = end; k < end + 256; k++) mem[k] = (unsigned char)(k * 37 + seed);
	size = end + 256;
	commit();
}
void Arena::commit() { memcpy(shadow, mem, size); }
void Arena::check(const std::string& what, const std::vector<void *>& d)
{
	size_t at = 0;
	std::vector<std::pair<size_t, size_t> > holes;
	for (size_t i = 0; i < slots.size(); i++) {
		for (size_t j = 0; j < d.size(); j++) if (mem + slots[i].off == d[j]) holes.push_back(std::make_pair(slots[i].off, slots[i].n));
	}
	for (size_t i = 0; i <= holes.size(); i++) {
		size_t e = i < holes.size() ? holes[i].first : size;
		if (e > at && memcmp(mem + at, shadow + at, e - at)) {
			size_t k = at;
			while (mem[k] == shadow[k]) k++;
			std::string who = "memory between objects";
			for (size_t j = 0; j < slots.size(); j++) if (slots[j].off <= k && k < slots[j].off + slots[j].n) who = slots[j].name;
			violate("operand-changed", what + " changed " + who + ", which is not its destination");
		}
		if (i < holes.size()) at = holes[i].first + holes[i].second;
	}
	commit();
}
