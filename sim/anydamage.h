// Damaged text and values near the borders of what a text may denote.
#pragma once
#include "anyops.h"
#include <locale>

namespace A {
struct Grouping : std::numpunct<char> {
	char sep, point;
	std::string g;
	Grouping(char s, const std::string& gr, char pt) : sep(s), point(pt), g(gr) {}
	char do_thousands_sep() const { return sep; }
	char do_decimal_point() const { return point; }
	std::string do_grouping() const { return g; }
	std::string do_truename() const { return "0"; }
};
inline std::locale someLocale(u64 k)
{
	static const char *const gr[] = { "\1", "\2", "\3", "\3\2" };
	if (k % 5 == 0) return std::locale::classic();
	return std::locale(std::locale::classic(), new Grouping(k % 2 ? ',' : '0', gr[k % 4], '_'));
}
inline std::string spaces(Rng& r, bool need)
{
	static const char w[] = " \t\n\r\v\f";
	std::string s;
	for (size_t n = need ? r.range(1, 4) : r.below(3); n; n--) s += w[r.below(6)];
	return s;
}
inline std::string damage(std::string s, Rng& r)
{
	static const std::string extra = std::string("0123456789abcdefABCDEFgxX_[],-+ \t\n.;'\"()") + std::string(1, '\0') + "\x80\xff\xa0~oO";
	int n = (int)r.range(1, r.chance(1, 4) ? 6 : 2);
	while (n--) {
		size_t a = r.below(s.size() + 1), b = r.below(s.size() + 1);
		if (a > b) std::swap(a, b);
		switch (r.below(15)) {
		case 0: if (a < s.size()) s[a] = (char)(s[a] ^ (1 << r.below(8))); break;
		case 1: if (a < s.size()) s[a] = r.pick(std::vector<char>(extra.begin(), extra.end())); break;
		case 2: s.insert(a, 1, extra[r.below(extra.size())]); break;
		case 3: if (a < s.size()) s.erase(a, 1); break;
		case 4: s.erase(a, b - a); break;
		case 5: s.insert(a, s.substr(a, b - a)); break;
		case 6: s = s.substr(0, a); break;
		case 7: s = s.substr(a); break;
		case 8: if (s.size() > 1) { size_t i = r.below(s.size() - 1); std::swap(s[i], s[i + 1]); } break;
		case 9: s.insert(a, r.chance(1, 2) ? "0x" : r.chance(1, 2) ? "-" : "0b"); break;
		case 10: s.insert(a, std::string((size_t)r.range(1, r.chance(1, 5) ? 2500 : 90), "0159afF"[r.below(7)])); break;
		case 11: s += r.chance(1, 2) ? "x" : extra.substr(r.below(extra.size()), 3); break;
		case 12: s.insert(a, spaces(r, true)); break;
		case 13: { size_t q = s.find_first_of("[],_", a); if (q != std::string::npos) { if (r.chance(1, 2)) s.erase(q, 1); else s[q] = "[],_"[r.below(4)]; } break; }
		default: { std::string t; size_t len = r.below(12); for (size_t q = 0; q < len; q++) t += "01f9x_[], -"[r.below(11)]; s = r.chance(1, 2) ? t : s.insert(a, t); break; }
		}
	}
	return s;
}
// a value near the borders of what a text may denote
inline Val textValue(int k, Rng& r)
{
	Val v = random(k, r);
	if (isPoint(k)) {
		if (!v.inf && r.chance(1, 4)) { // off the curve
			size_t q = r.below(v.c.size());
			if (v.c.size() == 2 && r.chance(1, 2)) { M::P1 p(v.c[0], v.c[1]); if (B::almostOn(r, p)) v.c[1] = p.y; }
			else if (v.c.size() == 4 && r.chance(1, 2)) { M::P2 p(M::F2(v.c[0], v.c[1]), M::F2(v.c[2], v.c[3])); if (B::almostOn(r, p)) { v.c[2] = p.y.a; v.c[3] = p.y.b; } }
			else v.c[q] = r.chance(1, 2) ? M::md(v.c[q] + 1) : M::fmul(B::genRawFp(r), M::C.Rinv);
		}
		if (!v.inf && r.chance(1, 8)) for (size_t q = v.c.size() / 2; q < v.c.size(); q++) v.c[q] = M::fneg(v.c[q]);
	}
	if (!isInt(k) && r.chance(1, 8)) { size_t q = r.below(v.c.size()); v.c[q] += M::C.p * Z((unsigned long)r.range(1, 3)); }
	if (r.chance(1, 16)) { size_t q = r.below(v.c.size()); v.c[q] = B::genWords(r, 10) << (unsigned)r.below(130); }
	return v;
}
}
