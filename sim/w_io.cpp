// C03, C04: reading and writing over simulated byte channels, and damaged text.
#include "anydamage.h"
#include <string.h>
#include <iomanip>
#include <locale>
#include <deque>
#include <memory>
using namespace B;
using A::Val; using A::someLocale; using A::damage; using A::spaces; using A::textValue;

namespace {
const int NREG = 3; // of each kind
const int NCH = 3;
struct Broken : std::runtime_error { Broken() : std::runtime_error("device error") {} };
void breakDevice(int how)
{
	stat("fault.device-throws");
	switch (how % 3) {
	case 0: throw Broken();
	case 1: throw std::bad_alloc();
	default: throw 5;
	}
}
// delivers the bytes in pieces; fails at one byte or at the end
struct InBuf : std::streambuf {
	const std::string& s;
	size_t at, end, failAt;
	int how;
	bool failed;
	Rng r;
	size_t piece;
	std::vector<char> b;
	InBuf(const std::string& s_, size_t begin, size_t end_, size_t failAt_, int how_, u64 seed) : s(s_), at(begin), end(end_), failAt(failAt_), how(how_), failed(false), r(seed), piece(1 + (seed % 3 == 0 ? 0 : seed % 3 == 1 ? seed / 3 % 8 : 4095)) {}
	size_t pos() const { return at - (egptr() - gptr()); } // bytes consumed by the reader
	int_type underflow()
	{
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (at == failAt) { failed = true; breakDevice(how); }
		size_t e = std::min(end, failAt > at ? failAt : end);
		if (at >= e) return traits_type::eof();
		size_t n = std::min(e - at, (size_t)r.range(1, piece));
		b.assign(s.begin() + at, s.begin() + at + n);
		at += n;
		setg(&b[0], &b[0], &b[0] + n);
		stat("fault.short-read", at < end);
		return traits_type::to_int_type(*gptr());
	}
};
struct OutBuf : std::streambuf {
	std::string& s;
	size_t room;
	int how; // 0: refuses, else throws
	bool failed;
	std::vector<char> b;
	OutBuf(std::string& s_, size_t room_, int how_, size_t cap) : s(s_), room(room_), how(how_), failed(false), b(cap) { if (cap) setp(&b[0], &b[0] + cap - 1); }
	bool flush()
	{
		size_t n = pptr() - pbase();
		bool ok = put(pbase(), n);
		setp(&b[0], &b[0] + b.size() - 1);
		return ok;
	}
	bool put(const char *p, size_t n)
	{
		size_t k = std::min(n, room);
		s.append(p, k);
		room -= k;
		if (k == n) return true;
		failed = true;
		if (how) breakDevice(how); else stat("fault.device-full");
		return false;
	}
	int_type overflow(int_type c)
	{
		char ch = traits_type::to_char_type(c);
		if (b.empty()) return traits_type::eq_int_type(c, traits_type::eof()) || put(&ch, 1) ? traits_type::not_eof(c) : traits_type::eof();
		if (!traits_type::eq_int_type(c, traits_type::eof())) { *pptr() = ch; pbump(1); }
		return flush() ? traits_type::not_eof(c) : traits_type::eof();
	}
	int sync() { return b.empty() || flush() ? 0 : -1; }
};
struct Token { Val v; size_t begin, end; };
struct Channel { std::string bytes; size_t pos; std::deque<Token> q; Channel() : pos(0) {} };
struct Mach {
	Arena ar;
	void *reg[A::NKIND][NREG];
	Val val[A::NKIND][NREG];
	Channel ch[NCH];
	const Step *st;
	std::string what;
	u64 lastWs;
};
Mach *m;
void bad(const std::string& cls, const std::string& s) { violate(cls, m->what + ": " + s); }
std::string show(const std::string& s) { std::string e = escText(s); return e.size() > 700 ? e.substr(0, 700) + "..." : e; }

using A::put; using A::take; using A::toText; using A::hasSet; using A::setText;
struct Fmt { std::ios_base::fmtflags f; std::streamsize prec, width; char fill; std::ios_base::iostate ex; std::locale loc; };
Fmt fmt(std::ios& s) { Fmt f = { s.flags(), s.precision(), s.width(), s.fill(), s.exceptions(), s.getloc() }; return f; }
void sameFmt(const Fmt& a, std::ios& s)
{
	if (a.f != s.flags() || a.prec != s.precision() || a.fill != s.fill() || a.ex != s.exceptions() || !(a.loc == s.getloc()) || (s.width() && a.width != s.width())) bad("format-changed", "the formatting state of the stream changed");
}
void sameReg(int k, int i, const std::string& why)
{
	if (A::get(k, m->reg[k][i]) != m->val[k][i]) bad("object-changed", why + ": the object is " + A::get(k, m->reg[k][i]).str() + ", it was " + m->val[k][i].str());
	m->ar.check(m->what, std::vector<void *>());
}
void gotReg(int k, int i, const Val& v, const std::string& from)
{
	Val g = A::get(k, m->reg[k][i]);
	if (g != v) bad("wrong-value", from + " gave " + g.str() + " instead of " + v.str());
	if (!A::canon(k, m->reg[k][i])) bad("not-canonical", from + ": not reduced or normalized");
	if (!g.onCurve()) bad("off-curve", from + " gave a point off the curve");
	m->val[k][i] = v;
	std::vector<void *> d(1, m->reg[k][i]);
	m->ar.check(m->what, d);
}
// needs white space between the tokens of these kinds?
bool bracket(int k) { return k == A::KG || k == A::KH || k == A::KK; }

// write k i ch how seed: append to the channel, first on a failing device if asked for
void doWrite()
{
	const Step& st = *m->st;
	int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG;
	Channel& c = m->ch[st.u(3) % NCH];
	Rng r(st.u(4));
	const bool fail = st.u(5) != 0;
	if (k < 0) return;
	const Val& v = m->val[k][i];
	{
		bool need = !(c.bytes.empty() || c.pos == c.bytes.size());
		if (need && !c.q.empty() && (bracket(c.q.back().v.k) || bracket(k)) && !A::isPoint(k) && !A::isPoint(c.q.back().v.k)) need = r.chance(1, 2);
		c.bytes += spaces(r, need);
	}
	Token t;
	t.v = v;
	t.begin = c.bytes.size();
	const bool hex = r.chance(1, 2), oct = !hex && r.chance(1, 6);
	for (int attempt = fail ? 0 : 1; attempt < 2; attempt++) {
		const size_t room = attempt ? (size_t)-1 : r.below(r.chance(1, 3) ? 4 : 60 * v.c.size());
		OutBuf ob(c.bytes, room, (int)r.below(4), r.chance(1, 3) ? 0 : (size_t)r.range(1, 200));
		std::ostream os(&ob);
		if (hex) os << std::hex;
		if (oct) os << std::oct;
		if (r.chance(1, 4)) os << std::showbase;
		if (r.chance(1, 4)) os << std::uppercase;
		if (r.chance(1, 4)) os << std::showpos;
		if (attempt && r.chance(1, 8)) os << std::unitbuf; // its destructor cannot report
		if (r.chance(1, 4)) os.precision((std::streamsize)r.below(20));
		if (r.chance(1, 4)) { static const std::ios_base::fmtflags ad[] = { std::ios_base::left, std::ios_base::right, std::ios_base::internal }; os.setf(ad[r.below(3)], std::ios_base::adjustfield); if (r.chance(1, 2)) os.width((std::streamsize)r.below(120)); }
		else if (r.chance(1, 4)) os.fill('7');
		if (r.chance(1, 4)) os.imbue(someLocale(r.below(20)));
		if (r.chance(1, 5)) { if (!attempt || r.chance(1, 2)) os.exceptions(std::ios_base::badbit); else os.exceptions(std::ios_base::badbit | std::ios_base::failbit); }
		const Fmt f = fmt(os);
		bool threw = false;
		try {
			put(os, k, m->reg[k][i]);
			os.flush();
		} catch (std::exception&) {
			threw = true;
		} catch (int) {
			threw = true;
		}
		sameFmt(f, os);
		sameReg(k, i, "writing");
		const bool ok = !threw && !os.fail();
		std::string got = c.bytes.substr(t.begin);
		if (ok && ob.failed) bad("silent-failure", "the device failed but the stream did not report it, it got " + show(got));
		if (!ok && !ob.failed) bad("write-failed", "writing failed without a fault");
		if (ok) {
			Val w(k);
			if (!A::denotes(got, w) || w != v) bad("wrong-text", "wrote " + show(got) + " for " + v.str());
			attempt = 1;
			stat("written");
			cover(strf("w%d%d%d", k, (int)hex, (int)v.inf));
		} else {
			stat("write-failed");
			cover(strf("wf%d%d", k, (int)std::min<size_t>(got.size(), 30)));
			c.bytes.resize(t.begin); // what a failed write left is cut off
		}
	}
	t.end = c.bytes.size();
	c.q.push_back(t);
	ev(show(c.bytes.substr(t.begin)));
}
// one value from a stream. returns true if it was read
bool readOne(std::istream& is, InBuf& ib, int k, int i, const Val *full, bool must)
{
	const size_t begin = ib.pos();
	const Fmt f = fmt(is);
	bool threw = false;
	try {
		take(is, k, m->reg[k][i]);
	} catch (std::exception& e) {
		threw = true;
		if (tracing()) fprintf(stderr, "  %s\n", e.what());
	} catch (int) {
		threw = true;
	}
	sameFmt(f, is);
	const bool ok = !threw && !is.fail();
	const std::string used = ib.s.substr(begin, ib.pos() - begin);
	if (!ok) {
		sameReg(k, i, "reading " + show(used) + " failed");
		if (must && !ib.failed) bad("rejected", "well formed text was not read: " + show(ib.s.substr(begin, 1500)));
		return false;
	}
	Val v(k);
	if (!A::denotes(used, v)) bad("accepted-bad-text", "read " + show(used) + " as " + A::get(k, m->reg[k][i]).str());
	if (!v.onCurve()) bad("off-curve", "read " + show(used) + " which is not on the curve");
	v = v.reduced();
	gotReg(k, i, v, "reading " + show(used));
	if (full && ib.failed && v != *full) bad("silent-failure", "the device failed, but a part of the text was taken for a value: " + show(used));
	if (full && must && v != *full) bad("wrong-value", "read " + v.str() + " instead of " + full->str());
	return true;
}
// what formatted input may be told
void dress(std::istream& is, Rng& r, bool& lenient)
{
	lenient = false;
	if (r.chance(1, 4)) is >> std::hex;
	if (r.chance(1, 6)) is >> std::oct;
	if (r.chance(1, 4)) is.imbue(someLocale(r.below(20)));
	if (r.chance(1, 6)) is.width((std::streamsize)r.below(12));
	if (r.chance(1, 4)) {
		int e = (int)r.below(4);
		if (e == 0) is.exceptions(std::ios_base::failbit | std::ios_base::badbit);
		if (e == 1) is.exceptions(std::ios_base::badbit);
		if (e == 2) is.exceptions(std::ios_base::failbit);
		if (e == 3) { is.exceptions(std::ios_base::eofbit | std::ios_base::badbit); lenient = true; } // asked for an exception at the end
	}
}
// read ch n seed fault: up to n values from one stream
void doRead()
{
	const Step& st = *m->st;
	Channel& c = m->ch[st.u(1) % NCH];
	const size_t n = st.u(2);
	Rng r(st.u(3));
	const int fault = (int)st.u(4); // 0 none, 1 device error, 2 end of data
	if (c.q.empty()) return;
	const size_t last = c.q[std::min(n, c.q.size()) - 1].end;
	const size_t span = last - c.pos + 1;
	const size_t at = c.pos + r.below(span);
	size_t end = fault == 2 ? at : c.bytes.size();
	InBuf ib(c.bytes, c.pos, end, fault == 1 ? at : (size_t)-1, (int)r.below(3), r.next());
	std::istream is(&ib);
	bool lenient;
	dress(is, r, lenient);
	const bool noskip = r.chance(1, 10);
	for (size_t j = 0; j < n && !c.q.empty(); j++) {
		Token t = c.q.front();
		const int k = t.v.k, i = (int)r.below(NREG);
		bool must = !lenient && end >= t.end;
		if (noskip) { // white space is not skipped: only a single token without any is readable
			is >> std::noskipws;
			if (ib.pos() != t.begin) must = false;
			for (size_t q = t.begin; q < t.end; q++) if (isspace((unsigned char)c.bytes[q])) must = false;
		}
		const size_t before = ib.pos();
		const bool ok = readOne(is, ib, k, i, &t.v, must && !ib.failed);
		stat(ok ? "read" : "read-failed");
		cover(strf("r%d%d%d%d%d", k, (int)ok, fault, (int)ib.failed, (int)std::min<size_t>((ib.pos() - before), 30)));
		if (ok) {
			if (ib.pos() > t.end && !(m->val[k][i] == t.v)) bad("wrong-value", "read over the end of the value");
			if (end >= t.end && !ib.failed) {
				if (m->val[k][i] != t.v) bad("wrong-value", "read " + m->val[k][i].str() + " instead of " + t.v.str());
				c.pos = ib.pos();
				c.q.pop_front();
				continue;
			}
			if (end >= t.end) { c.pos = t.end; c.q.pop_front(); continue; }
			// cut off by the end of data: exactly what was there
		}
		// again on a healthy stream
		InBuf ib2(c.bytes, t.begin, c.bytes.size(), (size_t)-1, 0, r.next());
		std::istream is2(&ib2);
		bool len2;
		dress(is2, r, len2);
		const int i2 = ok ? (i + 1) % NREG : i;
		if (readOne(is2, ib2, k, i2, &t.v, !len2)) {
			if (m->val[k][i2] != t.v) bad("wrong-value", "the second attempt read " + m->val[k][i2].str() + " instead of " + t.v.str());
		} else {
			InBuf ib3(c.bytes, t.begin, c.bytes.size(), (size_t)-1, 0, 2);
			std::istream is3(&ib3);
			readOne(is3, ib3, k, i2, &t.v, true);
		}
		stat("retried");
		c.pos = t.end;
		c.q.pop_front();
		break;
	}
	ev("read", c.pos);
}
// text k i j base: object to text to object without a channel
void doText()
{
	const Step& st = *m->st;
	int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG, j = (int)st.u(3) % NREG;
	if (k < 0) return;
	Rng r(st.u(4));
	const Val v = m->val[k][i];
	std::string s = toText(k, m->reg[k][i], r.chance(1, 2) ? 16 : 10);
	Val w(k);
	if (!A::denotes(s, w) || w != v) bad("wrong-text", "text " + show(s) + " for " + v.str());
	sameReg(k, i, "toString");
	if (hasSet(k)) setText(k, m->reg[k][j], s, (int)r.below(3));
	else { std::istringstream is(s); take(is, k, m->reg[k][j]); if (is.fail()) bad("rejected", "text " + show(s)); }
	gotReg(k, j, v, "text " + show(s));
	ev(show(s));
	stat("texts");
	cover(strf("t%d%d", k, (int)v.inf));
}
// parse k i seed how: how 0 undamaged, 1 damaged, 2 text of another kind
void doParse()
{
	const Step& st = *m->st;
	int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG;
	if (k < 0) return;
	Rng r(st.u(3));
	const int how = (int)st.u(4);
	int kt = how == 2 ? (int)r.below(A::NKIND) : k;
	Val v = textValue(kt, r);
	std::string s = A::text(v, r, (int)r.below(32));
	if (how == 1) s = damage(s, r);
	const bool must = how == 0 && v.fits() && v.onCurve();
	if (hasSet(k) && r.chance(1, 2)) {
		bool threw = false;
		try {
			setText(k, m->reg[k][i], s, (int)r.below(3));
		} catch (std::exception&) {
			threw = true;
		}
		if (threw) {
			sameReg(k, i, "rejecting " + show(s));
			if (must) bad("rejected", "well formed text was not accepted: " + show(s));
		} else {
			Val w(k);
			if (!A::denotes(s, w)) bad("accepted-bad-text", "accepted " + show(s) + " as " + A::get(k, m->reg[k][i]).str());
			gotReg(k, i, w.reduced(), "text " + show(s));
		}
		stat(threw ? "rejected" : "accepted");
		cover(strf("s%d%d%d", k, how, (int)threw) + (s.size() < 8 ? s : s.substr(0, 3) + s.substr(s.size() - 3)));
	} else {
		std::string lead = r.chance(1, 3) ? spaces(r, true) : "", tail = r.chance(1, 2) ? "" : spaces(r, true) + (r.chance(1, 2) ? "77" : "");
		std::string all = lead + s + tail;
		InBuf ib(all, 0, all.size(), (size_t)-1, 0, r.next());
		std::istream is(&ib);
		bool lenient;
		dress(is, r, lenient);
		bool ok = readOne(is, ib, k, i, must ? &v : 0, must && !lenient);
		stat(ok ? "accepted" : "rejected");
		cover(strf("p%d%d%d", k, how, (int)ok) + (s.size() < 8 ? s : s.substr(0, 3) + s.substr(s.size() - 3)));
	}
	if (how) stat("fault.damage");
	ev(show(s));
}
// point k i seed: construction from coordinates
template<class E, class F, class MF> void pointOf(int k, E& e, const MF& x, const MF& y, const MF& z, int how, int i)
{
	F lx, ly, lz;
	B::put(lx, x);
	B::put(ly, y);
	B::put(lz, z);
	typedef M::Ops<MF> O;
	const bool jac = how & 1;
	M::Pt<MF> p;
	if (!jac) p = M::Pt<MF>(x, y);
	else if (!M::isZero(z)) { MF w = O::inv(z); MF w2 = O::mul(w, w); p = M::Pt<MF>(O::mul(x, w2), O::mul(y, O::mul(w2, w))); }
	bool threw = false;
	try {
		switch (how) {
		case 0: e.set(lx, ly); break;
		case 1: e.set(lx, ly, lz); break;
		case 2: e = E(lx, ly); break;
		case 3: e = E(lx, ly, lz); break;
		}
	} catch (std::exception&) {
		threw = true;
	}
	if (threw == M::onCurve(p)) bad(threw ? "rejected" : "off-curve", threw ? "a point of the curve was rejected" : "a point which is not on the curve was accepted");
	if (threw) sameReg(k, i, "rejecting a point");
	else gotReg(k, i, A::of(p), "a point");
	stat(threw ? "rejected" : "accepted");
	cover(strf("c%d%d%d", k, how, (int)threw));
	ev("point", threw);
}
void doPoint()
{
	const Step& st = *m->st;
	int k = st.s(1) == "p" ? A::KP : A::KQ, i = (int)st.u(2) % NREG;
	Rng r(st.u(3));
	Val v = textValue(k, r).reduced();
	const int how = (int)r.below(4);
	if (v.inf) for (size_t q = 0; q < v.c.size(); q++) v.c[q] = Z((unsigned long)r.below(4));
	if (k == A::KP) {
		Z x = v.c[0], y = v.c[1], z = r.chance(1, 3) ? Z(r.below(2) ? 1 : 0) : M::fmul(genRawFp(r), M::C.Rinv);
		if (r.chance(2, 3)) { x = M::fmul(x, M::fmul(z, z)); y = M::fmul(y, M::fmul(z, M::fmul(z, z))); }
		pointOf<bn::Ec1, bn::Fp, Z>(k, *(bn::Ec1 *)m->reg[k][i], x, y, z, how, i);
	} else {
		M::F2 x = A::f2(v, 0), y = A::f2(v, 2), z = r.chance(1, 3) ? M::F2((int)r.below(2)) : M::F2(M::fmul(genRawFp(r), M::C.Rinv), Z((unsigned long)r.below(3)));
		if (r.chance(2, 3)) { x = x * (z * z); y = y * (z * z * z); }
		pointOf<bn::Ec2, bn::Fp2, M::F2>(k, *(bn::Ec2 *)m->reg[k][i], x, y, z, how, i);
	}
}
void exec(const Plan& p)
{
	Mach mach;
	m = &mach;
	const u64 lay = p.hu("layout");
	for (int k = 0; k < A::NKIND; k++) for (int i = 0; i < NREG; i++) m->reg[k][i] = m->ar.add(strf("%c%d", A::kindName[k], i), A::sizeOf(k), lay * 31 + k * 7 + i);
	initLib(p);
	Rng vr(p.hu("values"));
	for (int k = 0; k < A::NKIND; k++) for (int i = 0; i < NREG; i++) { m->val[k][i] = A::random(k, vr); A::construct(k, m->reg[k][i], m->val[k][i], vr); }
	m->ar.start(lay);
	int done = 0;
	for (size_t s = 0; s < p.steps.size(); s++) {
		const Step& st = p.steps[s];
		m->st = &st;
		setStep(s);
		const std::string& o = st.op();
		m->what = strf("step %d ", (int)s) + o;
		for (size_t j = 1; j < st.n(); j++) m->what += " " + st.s(j);
		if (o == "locale") { std::locale::global(someLocale(st.u(1))); stat("fault.locale"); continue; }
		if (o == "garbage") { poisonBelow(st.u(1), 48 << 10); alloc::poison = (unsigned char)st.u(1); stat("fault.garbage"); continue; }
		if (o == "reinit") {
			Cfg c = cfgOf(p);
			c.mode = (int)st.i(1);
			c.mulx = (int)st.i(2);
			initLib(c);
			m->ar.check("initializing again", std::vector<void *>());
			stat("fault.reinit");
			continue;
		}
		if (o == "load") {
			int k = A::kindOf(st.s(1)[0]), i = (int)st.u(2) % NREG;
			if (k < 0) continue;
			Rng r(st.u(3));
			m->val[k][i] = A::random(k, r);
			A::construct(k, m->reg[k][i], m->val[k][i], r);
			m->ar.commit();
			continue;
		}
		if (o == "write") doWrite();
		else if (o == "read") doRead();
		else if (o == "text") doText();
		else if (o == "parse") doParse();
		else if (o == "point") doPoint();
		else continue;
		m->ar.check(m->what, std::vector<void *>());
		done++;
		stat("ops");
	}
	if (done >= 3) nontrivial();
	if (done) sample(strf("%d operations, last: ", done) + m->what);
}
const char *kindTok(int k) { static char s[A::NKIND][2]; s[k][0] = A::kindName[k]; return s[k]; }
int someKind(Rng& r, unsigned mask) { for (;;) { int k = (int)r.below(A::NKIND); if (mask >> k & 1) return k; } }
void common(Rng& r, Plan& p)
{
	genCfg(r, p);
	p.set("layout", r.below(1000));
	p.set("values", r.next() >> 16);
}
void faults(Rng& r, Plan& p)
{
	switch (r.below(4)) {
	case 0: p.add(StepB("garbage")(r.below(1000))); break;
	case 1: p.add(StepB("reinit")((int)r.below(3) - 1)((int)r.below(2))); break;
	default: p.add(StepB("locale")(r.below(20))); break;
	}
}
void genText(Rng& r, Plan& p, bool thorough)
{
	common(r, p);
	int len = (int)r.range(3, thorough ? 120 : 45);
	unsigned mask = r.chance(1, 3) ? 0xff : (unsigned)r.range(1, 255);
	const int pf = (int)r.below(4), pl = (int)r.below(5);
	for (int i = 0; i < len; i++) {
		if (r.below(16) < (u64)pl) faults(r, p);
		switch (r.below(10)) {
		case 0: { int k = someKind(r, mask); p.add(StepB("load")(kindTok(k))(r.below(NREG))(r.next() >> 16)); break; }
		case 1: { int k = someKind(r, mask); p.add(StepB("text")(kindTok(k))(r.below(NREG))(r.below(NREG))(r.next() >> 16)); break; }
		case 2: case 3: case 4: case 5: { int k = someKind(r, mask); p.add(StepB("write")(kindTok(k))(r.below(NREG))(r.below(NCH))(r.next() >> 16)((int)(r.below(6) < (u64)pf))); break; }
		default: p.add(StepB("read")(r.below(NCH))(r.range(1, 4))(r.next() >> 16)(r.below(6) < (u64)pf ? (int)r.range(1, 2) : 0)); break;
		}
	}
}
void genDamage(Rng& r, Plan& p, bool thorough)
{
	common(r, p);
	int len = (int)r.range(3, thorough ? 150 : 50);
	unsigned mask = r.chance(1, 3) ? 0xff : (unsigned)r.range(1, 255);
	const int pl = (int)r.below(4), pd = (int)r.range(2, 9);
	for (int i = 0; i < len; i++) {
		if (r.below(16) < (u64)pl) faults(r, p);
		int k = someKind(r, mask);
		if (r.chance(1, 12)) { p.add(StepB("load")(kindTok(k))(r.below(NREG))(r.next() >> 16)); continue; }
		if (r.chance(1, 10)) { p.add(StepB("point")(r.chance(1, 2) ? "p" : "q")(r.below(NREG))(r.next() >> 16)); continue; }
		p.add(StepB("parse")(kindTok(k))(r.below(NREG))(r.next() >> 16)(r.below(10) < (u64)pd ? (r.chance(1, 12) ? 2 : 1) : 0));
	}
}
World wt("text", genText, exec, initModel);
World wd("damage", genDamage, exec, initModel);
}
