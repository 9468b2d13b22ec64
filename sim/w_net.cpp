// C11: parties, each a process with the library in its own configuration, run pairing based protocols over a simulated
// network and restart from their logs. The simulator (this file without struct Party) uses the model only.
//
// Protocols of a session k:
//  J  three party key agreement: a P in G1 and a Q in G2 with a signature of the sender; the key is e(P, Q)^(abc),
//     confirmed by a power of the key (message C)
//  S  threshold signature: partial signatures, combined from any t of them
//  A  signatures of all parties, verified one by one and as an aggregate
#include "fixedbase.h"
#include "anydamage.h"
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <queue>
#include <memory>
#include <sys/wait.h>
#include <sys/resource.h>
using namespace B;
using M::F2; using M::F12; using M::P1; using M::P2;
using A::Val;

namespace {
typedef std::vector<std::string> Msg;
const int MAXN = 4, MAXS = 8;
const int NEVER = 1 << 30;

// ---- what both sides know
u64 h64(const std::string& s, u64 salt) { Rng r(hashStr(s, salt * 0x9E3779B97F4A7C15ULL + 1)); return r.next(); }
std::string hex256(const std::string& s)
{
	std::string o;
	for (int i = 0; i < 4; i++) o += strf("%016llx", (unsigned long long)h64(s, i + 1));
	return o;
}
std::string signedText(char type, int k, int sender) { return strf("%c session %d", type, k) + (type == 'S' ? "" : strf(" sender %d", sender)); }

// ================================================================ a party: uses the library
typedef mie::ZmZ<mie::Vuint, struct NetTag> Zr;
struct NodeCfg { int b, mode, mulx, vendor, bmi2, route, style; u64 garbage; };
struct Pieces : std::streambuf {
	const std::string& s;
	size_t at, piece;
	Rng r;
	std::vector<char> b;
	Pieces(const std::string& s_, u64 seed) : s(s_), at(0), piece(seed % 4 == 0 ? 1 : seed % 4 == 1 ? 1 + seed / 4 % 8 : 4096), r(seed), b(4096) {}
	int_type underflow()
	{
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (at >= s.size()) return traits_type::eof();
		size_t n = std::min(s.size() - at, (size_t)r.range(1, piece));
		memcpy(&b[0], s.data() + at, n);
		at += n;
		setg(&b[0], &b[0], &b[0] + n);
		return traits_type::to_int_type(*gptr());
	}
};
std::string rawOf(const void *p, size_t n) { return std::string((const char *)p, n); }
struct Party {
	struct Sess {
		char type;
		bool started, mine, haveK, done;
		bool got[MAXN], conf[MAXN];
		bn::Ec1 p1[MAXN], sig[MAXN];
		bn::Ec2 p2[MAXN];
		bn::Fp12 K;
		mie::Vuint a;
	};
	NodeCfg cfg;
	int me, n, t;
	mie::Vuint sk, share;
	bn::Ec1 g1;
	bn::Ec2 g2, pk[MAXN], vk[MAXN], gpk;
	Sess s[MAXS];
	struct Table { bool set; std::vector<bn::Fp6> c; Table() : set(false) {} } tab[2 * MAXN + 2]; // g2, gpk, pk, vk
	std::string why;

	void init(const Msg& q)
	{
		Cfg c = { cfg.b, cfg.mode, cfg.mulx };
		initLib(c);
		Zr::setModulo(bn::Param::r);
		for (int i = 0; i < MAXS; i++) { s[i].started = s[i].mine = s[i].haveK = s[i].done = false; for (int j = 0; j < MAXN; j++) s[i].got[j] = s[i].conf[j] = false; }
		// n t me sk share g1 g2 gpk pk.. vk..
		n = atoi(q[1].c_str());
		t = atoi(q[2].c_str());
		me = atoi(q[3].c_str());
		sk.set(q[4]);
		share.set(q[5]);
		g1 = point<bn::Ec1>(q[6]);
		g2 = point<bn::Ec2>(q[7]);
		gpk = point<bn::Ec2>(q[8]);
		for (int i = 0; i < n; i++) { pk[i] = point<bn::Ec2>(q[9 + i]); vk[i] = point<bn::Ec2>(q[9 + n + i]); }
		bn::Ec2 own;
		times(own, g2, sk);
		if (own != pk[me]) { why = "the public key of the party is not its own"; return; }
		for (int i = 0; i < MAXS && 9 + 2 * n + i < (int)q.size(); i++) s[i].type = q[9 + 2 * n + i][0];
	}
	template<class E> E point(const std::string& x) { std::istringstream is(x); E e; is >> e; if (!is) why = "setup"; return e; }
	// ---- operations by different routes
	template<class E> void times(E& o, const E& p, const mie::Vuint& x)
	{
		switch (cfg.route & 3) {
		case 0: E::mul(o, p, x); break;
		case 1: o = p * mpz_class(x.toString(16), 0); break;
		case 2: { E q(p); q *= x; o = q; break; }
		default: { E q(p); bn::ecop::ScalarMult(o.p, q.p, x); break; }
		}
	}
	void hashPoint(bn::Ec1& h, const std::string& m)
	{
		std::string d = hex256(m);
		mie::Vuint v;
		v.set("0x" + d);
		v %= bn::Param::p;
		bn::Fp x, y, y2;
		if (cfg.style & 1) x.set(v.toString(16)); else x.set(v.toString());
		for (;;) {
			y2 = x * x * x + bn::Fp(bn::Param::b);
			if (bn::Fp::squareRoot(y, y2)) break;
			x += bn::Fp(1);
		}
		if (y.get()[0] & 1) y = -y;
		h.set(x, y);
	}
	const std::vector<bn::Fp6>& table(int i)
	{
		if (!tab[i].set) {
			std::vector<bn::Fp6> c;
			bn::Fp2 q[3];
			const bn::Ec2& e = i == 0 ? g2 : i == 1 ? gpk : i < 2 + MAXN ? pk[i - 2] : vk[i - 2 - MAXN];
			bn::components::precomputeG2(c, q, e.p);
			tab[i].c.swap(c);
			tab[i].set = true;
		}
		return tab[i].c;
	}
	// e(Q, s) == e(K, h), K the key with index i (see table)
	bool check(const bn::Ec1& sg, const bn::Ec1& h, int i)
	{
		const bn::Ec2& key = i == 0 ? g2 : i == 1 ? gpk : i < 2 + MAXN ? pk[i - 2] : vk[i - 2 - MAXN];
		if (sg.isZero()) return false;
		bn::Fp12 e, f;
		switch (cfg.route >> 2 & 3) {
		case 0:
			bn::opt_atePairing(e, g2, sg);
			bn::opt_atePairing(f, key, h);
			return e == f;
		case 1: {
			bn::Ec1 ns(sg), nh(h);
			ns.normalize();
			nh.normalize();
			bn::components::millerLoop(e, table(0), ns.p);
			e.final_exp();
			bn::components::millerLoop(f, table(i), nh.p);
			f.final_exp();
			return e == f;
		}
		case 2: {
			bn::Ec1 ns, nh(h);
			bn::Ec1::neg(ns, sg);
			ns.normalize();
			nh.normalize();
			bn::components::millerLoop2(e, table(0), ns.p, table(i), nh.p);
			e.final_exp();
			return e == bn::Fp12(1);
		}
		default: { // product of two pairings
			bn::Ec1 ns;
			bn::Ec1::neg(ns, sg);
			bn::opt_atePairingJac<bn::Fp>(e, g2.p, ns.p);
			bn::opt_atePairingJac<bn::Fp>(f, key.p, h.p);
			e *= f;
			return e == 1;
		}
		}
	}
	bool inG2(const bn::Ec2& q)
	{
		if (q.isZero()) return false;
		bn::Ec2 t;
		times(t, q, bn::Param::r);
		return t.isZero();
	}
	std::string coords(const bn::Ec1& p, const bn::Ec2& q)
	{
		bn::Ec1 a(p);
		bn::Ec2 b(q);
		a.normalize();
		b.normalize();
		std::string o;
		if (cfg.style & 2) o = a.p[0].toString() + "|" + a.p[1].toString();
		else { std::ostringstream os; os << a.p[0] << "|" << a.p[1].get(); o = os.str(); }
		return o + "|" + b.p[0].toString() + "|" + b.p[1].toString();
	}
	// ---- own contributions
	void begin(int k)
	{
		Sess& q = s[k];
		if (q.mine) return;
		q.mine = true;
		bn::Ec1 h;
		switch (q.type) {
		case 'J': {
			if (me > 2) return;
			mie::Vuint v;
			v.set("0x" + hex256(sk.toString(16) + strf("|%d", k)));
			q.a = v % bn::Param::r;
			times(q.p1[me], g1, q.a);
			times(q.p2[me], g2, q.a);
			hashPoint(h, signedText('J', k, me) + coords(q.p1[me], q.p2[me]));
			times(q.sig[me], h, sk);
			break;
		}
		case 'S':
			hashPoint(h, signedText('S', k, me));
			times(q.sig[me], h, share);
			break;
		case 'A':
			hashPoint(h, signedText('A', k, me));
			times(q.sig[me], h, sk);
			break;
		}
		q.got[me] = true;
	}
	std::string text(char type, int k, int sender, const bn::Ec1& p1, const bn::Ec2& p2, const bn::Ec1& sg, const bn::Fp12 *K, int st)
	{
		std::ostringstream os;
		os << type << ' ' << k << ' ' << sender;
		if (st & 4) os << std::hex;
		if (st & 8) os << std::uppercase << std::showbase;
		if (type == 'C') os << ' ' << *K;
		else if (type == 'J') os << ' ' << p1 << ' ' << p2 << ' ' << sg;
		else os << ' ' << sg;
		return os.str();
	}
	void powerK(bn::Fp12& o, int k, int sender)
	{
		const bn::Fp12& K = s[k].K;
		if (cfg.route & 1) { o = K; for (int i = 1; i < 2 + sender; i++) o *= K; }
		else o = mie::power(K, mie::Vuint(2 + sender));
	}
	void tick(const std::string& started, Msg& out)
	{
		for (int k = 0; k < MAXS && k < (int)started.size(); k++) {
			if (started[k] != '1') continue;
			Sess& q = s[k];
			q.started = true;
			begin(k);
			progress(k, out);
			if (q.type == 'J' && me > 2) continue;
			out.push_back("send");
			out.push_back(text(q.type, k, me, q.p1[me], q.p2[me], q.sig[me], 0, cfg.style));
			if (q.haveK) {
				bn::Fp12 c;
				powerK(c, k, me);
				out.push_back("send");
				out.push_back(text('C', k, me, q.p1[me], q.p2[me], q.sig[me], &c, cfg.style));
			}
		}
	}
	int parties(int k) const { return s[k].type == 'J' ? 3 : n; }
	void key(int k)
	{
		Sess& q = s[k];
		const int i = (me + 1) % 3, j = (me + 2) % 3;
		bn::Fp12 e;
		const bn::Ec1& a = cfg.route & 16 ? q.p1[i] : q.p1[j];
		const bn::Ec2& b = cfg.route & 16 ? q.p2[j] : q.p2[i];
		if (cfg.route & 32) { // exponent on a point
			bn::Ec1 x;
			times(x, a, q.a);
			bn::opt_atePairing(q.K, b, x);
			return;
		}
		if ((cfg.route >> 2 & 3) == 0) {
			bn::opt_atePairing(e, b, a);
		} else {
			std::vector<bn::Fp6> c;
			bn::Fp2 nq[3];
			bn::components::precomputeG2(c, nq, b.p);
			bn::Ec1 na(a);
			na.normalize();
			bn::components::millerLoop(e, c, na.p);
			e.final_exp();
		}
		q.K = mie::power(e, q.a);
	}
	void progress(int k, Msg& out)
	{
		Sess& q = s[k];
		if (q.done || !q.mine) return;
		int c = 0;
		for (int i = 0; i < parties(k); i++) c += q.got[i];
		switch (q.type) {
		case 'J':
			if (me > 2) { q.done = true; return; }
			if (c < 3) return;
			if (!q.haveK) {
				key(k);
				q.haveK = true;
				out.push_back("key");
				out.push_back(std::to_string(k));
				out.push_back(rawOf(&q.K, sizeof q.K));
			}
			for (int i = 0; i < 3; i++) if (i != me && !q.conf[i]) return;
			q.done = true;
			return;
		case 'S': {
			if (c < t) return;
			bn::Ec1 sum;
			sum.clear();
			int used = 0;
			for (int i = 0; i < n && used < t; i++) used += q.got[i];
			for (int i = 0, u = 0; i < n && u < t; i++) {
				if (!q.got[i]) continue;
				u++;
				Zr num(1), den(1);
				for (int j = 0, v = 0; j < n && v < t; j++) {
					if (!q.got[j]) continue;
					v++;
					if (j == i) continue;
					num *= Zr(j + 1);
					den *= Zr(j + 1) - Zr(i + 1);
				}
				Zr l = num / den;
				bn::Ec1 x;
				times(x, q.sig[i], l.get());
				sum += x;
			}
			bn::Ec1 h;
			hashPoint(h, signedText('S', k, 0));
			out.push_back(check(sum, h, 1) ? "comb" : "combfail");
			out.push_back(std::to_string(k));
			out.push_back(rawOf(&sum, sizeof sum));
			q.done = true;
			return;
		}
		case 'A': {
			if (c < n) return;
			bn::Ec1 sum = q.sig[0];
			bn::Fp12 e, f(1), x;
			for (int i = 1; i < n; i++) bn::Ec1::add(sum, sum, q.sig[i]);
			for (int i = 0; i < n; i++) {
				bn::Ec1 h;
				hashPoint(h, signedText('A', k, i));
				if (cfg.route & 8) {
					h.normalize();
					bn::components::millerLoop(x, table(2 + i), h.p);
				} else {
					bn::opt_atePairing(x, pk[i], h);
				}
				f *= x;
			}
			if (cfg.route & 8) f.final_exp();
			bn::opt_atePairing(e, g2, sum);
			out.push_back(e == f ? "agg" : "aggfail");
			out.push_back(std::to_string(k));
			out.push_back(rawOf(&sum, sizeof sum));
			q.done = true;
			return;
		}
		}
	}
	// ---- a message
	bool no(const char *w) { why = w; return false; }
	struct In { char type; int k, sender; bn::Ec1 p1, sig; bn::Ec2 p2; bn::Fp12 c; bool dup, later, whole; };
	std::string rawIn(const In& m)
	{
		if (m.type == 'C') return rawOf(&m.c, sizeof m.c);
		return (m.type == 'J' ? rawOf(&m.p1, sizeof m.p1) + rawOf(&m.p2, sizeof m.p2) : std::string()) + rawOf(&m.sig, sizeof m.sig);
	}
	bool read(In& m, const std::string& msg, u64 pieces)
	{
		Pieces buf(msg, pieces);
		std::istream is(&buf);
		std::string ty, rest;
				if (!(is >> ty >> m.k >> m.sender)) return no("header");
		if (ty.size() != 1 || m.k < 0 || m.k >= MAXS || m.sender < 0 || m.sender >= n) return no("header");
		m.type = ty[0];
		Sess& q = s[m.k];
		if (m.type != (m.type == 'C' ? q.type == 'J' ? 'C' : 0 : q.type)) return no("type");
		if (m.sender >= parties(m.k)) return no("sender");
		if (m.sender == me) { m.dup = true; return true; }
		if (!q.started) { m.later = true; return true; }
		if (m.type == 'C' ? q.conf[m.sender] : q.got[m.sender]) {
			m.dup = true;
			if (pieces % 5) return true; // else it is read all the same
		}
		switch (m.type) {
		case 'J': is >> m.p1 >> m.p2 >> m.sig; break;
		case 'C': is >> m.c; break;
		default: is >> m.sig; break;
		}
		if (!is) return no("does not read");
		if (is >> rest) return no("trailing text");
		m.whole = true;
		return true;
	}
	bool verify(In& m)
	{
		Sess& q = s[m.k];
		bn::Ec1 h;
		switch (m.type) {
		case 'J': {
			if (m.p1.isZero() || !m.p1.isValid() || !m.p2.isValid()) return no("invalid point");
			if (!inG2(m.p2)) return no("not in the subgroup");
			bn::Fp12 e, f;
			bn::opt_atePairing(e, g2, m.p1);
			bn::opt_atePairing(f, m.p2, g1);
			if (e != f) return no("points do not fit");
			hashPoint(h, signedText('J', m.k, m.sender) + coords(m.p1, m.p2));
			return check(m.sig, h, 2 + m.sender) || no("signature");
		}
		case 'C': {
			if (!q.haveK) { m.later = true; return true; }
			bn::Fp12 c;
			powerK(c, m.k, m.sender);
			return c == m.c || no("confirmation");
		}
		case 'S':
			hashPoint(h, signedText('S', m.k, m.sender));
			return check(m.sig, h, 2 + MAXN + m.sender) || no("partial signature");
		default:
			hashPoint(h, signedText('A', m.k, m.sender));
			return check(m.sig, h, 2 + m.sender) || no("signature");
		}
	}
	void receive(const std::string& msg, u64 pieces, long oom, Msg& out)
	{
		In m;
		m.dup = m.later = m.whole = false;
		std::string log, verdict = "rej";
		log.reserve(4096);
		why.clear();
		why.reserve(256);
		alloc::fired = 0;
		if (oom) alloc::failAt(oom);
		try {
			if (read(m, msg, pieces)) {
				if (!m.dup && !m.later && verify(m) && !m.later) {
					log = text(m.type, m.k, m.sender, m.p1, m.p2, m.sig, &m.c, cfg.style >> 4);
					alloc::off();
					verdict = "acc";
				} else {
					alloc::off();
					if (m.dup) verdict = "dup"; else if (m.later) verdict = "later";
				}
			}
		} catch (std::bad_alloc&) {
			alloc::off();
			verdict = "oom";
		} catch (std::exception& e) {
			alloc::off();
			why = e.what();
		}
		alloc::off();
		if (alloc::fired && verdict != "acc") verdict = "oom";
		out.push_back(verdict);
		out.push_back(why);
		out.push_back(std::to_string(alloc::fired));
		out.push_back(m.whole ? rawIn(m) : std::string());
		if (verdict != "acc") return;
		Sess& q = s[m.k];
		if (m.type == 'C') {
			q.conf[m.sender] = true;
		} else {
			q.p1[m.sender] = m.p1;
			q.p2[m.sender] = m.p2;
			q.sig[m.sender] = m.sig;
			q.got[m.sender] = true;
		}
		out.push_back(std::string(1, m.type));
		out.push_back(std::to_string(m.k));
		out.push_back(std::to_string(m.sender));
		out.push_back(log);
		progress(m.k, out);
	}
	Msg serve(const Msg& q)
	{
		Msg out;
		why.clear();
		if (q[0] == "init") {
			init(q);
		} else if (q[0] == "tick") {
			tick(q[1], out);
		} else if (q[0] == "recv") {
			receive(q[3], strtoull(q[1].c_str(), 0, 10), atol(q[2].c_str()), out);
		} else if (q[0] == "start") { // sessions which were started before a restart
			for (int k = 0; k < MAXS && k < (int)q[1].size(); k++) if (q[1][k] == '1') { s[k].started = true; begin(k); }
		} else if (q[0] == "reinit") {
			Cfg c = { cfg.b, atoi(q[1].c_str()), atoi(q[2].c_str()) };
			if (!q[3].empty() && SNARK) { Cfg o = { 85 - cfg.b, c.mode, !c.mulx }; initLib(o); }
			initLib(c);
		} else if (q[0] == "garbage") {
			u64 g = strtoull(q[1].c_str(), 0, 10);
			poisonBelow(g, 48 << 10);
			alloc::poison = (unsigned char)g;
		}
		if (q[0] != "recv" && !why.empty()) { out.clear(); out.push_back("failed"); out.push_back(why); }
		return out;
	}
};
bool readAllFd(int fd, void *p, size_t n)
{
	for (size_t i = 0; i < n;) { ssize_t k = read(fd, (char *)p + i, n - i); if (k <= 0) return false; i += k; }
	return true;
}
bool writeAllFd(int fd, const std::string& s)
{
	for (size_t i = 0; i < s.size();) { ssize_t k = write(fd, s.data() + i, s.size() - i); if (k <= 0) return false; i += k; }
	return true;
}
bool sendMsg(int fd, const Msg& m)
{
	std::string b;
	u64 n = m.size();
	b.append((const char *)&n, 8);
	for (size_t i = 0; i < m.size(); i++) { n = m[i].size(); b.append((const char *)&n, 8); b += m[i]; }
	return writeAllFd(fd, b);
}
bool recvMsg(int fd, Msg& m)
{
	u64 n, l;
	m.clear();
	if (!readAllFd(fd, &n, 8) || n > 10000) return false;
	for (u64 i = 0; i < n; i++) {
		if (!readAllFd(fd, &l, 8) || l > (1 << 24)) return false;
		m.push_back(std::string(l, 0));
		if (l && !readAllFd(fd, &m.back()[0], l)) return false;
	}
	return true;
}
Party *s_party;
int s_in, s_outFd;
void serveOnStack(void *)
{
	Msg q;
	Msg a;
	while (recvMsg(s_in, q)) {
		try {
			a = s_party->serve(q);
		} catch (std::exception& e) {
			alloc::off();
			a.clear();
			a.push_back("failed");
			a.push_back(std::string("exception: ") + e.what());
		}
		if (!sendMsg(s_outFd, a)) break;
	}
}
void nodeMain(const NodeCfg& c, int in, int out)
{
	for (int fd = 3; fd < 64; fd++) if (fd != in && fd != out) close(fd);
	struct rlimit rl = { 15, 20 };
	setrlimit(RLIMIT_CPU, &rl);
	if (c.vendor || !c.bmi2) cpu::simulate(c.vendor, c.bmi2, 0);
	alloc::poison = (unsigned char)c.garbage;
	s_in = in;
	s_outFd = out;
	void *mem = malloc(sizeof(Party));
	memset(mem, (int)c.garbage, sizeof(Party));
	s_party = new (mem) Party;
	s_party->cfg = c;
	poisonBelow(c.garbage, 64 << 10);
	serveOnStack(0);
	_exit(0);
}

// ================================================================ the simulator: uses the model
struct Proc { pid_t pid; int to, from; bool up; };
struct Packet { int from, to; std::string text; bool damaged, forged, log; u64 pieces; };
struct Event {
	int t;
	u64 seq;
	int kind; // 0 tick 1 deliver 2 crash 3 restart 4 forge 5 reinit 6 garbage 7 session
	int node;
	std::shared_ptr<Packet> pk;
	const Step *st;
	bool operator<(const Event& o) const { return t != o.t ? t > o.t : seq > o.seq; }
};
struct Contribution { bool set; P1 p1, sig; P2 p2; F12 conf; };
struct Session { bool in; char type; int start; Z a[3]; Contribution c[MAXN]; bool keySet; F12 K; P1 comb, agg; };
struct Sim {
	const Plan *p;
	int n, t, b, now, quiet, end;
	Z sk[MAXN], share[MAXN], group;
	NodeCfg cfg[MAXN];
	Proc proc[MAXN];
	std::vector<std::pair<std::string, bool> > log[MAXN]; // text, damaged
	Session s[MAXS];
	bool acc[MAXN][MAXS][MAXN], conf[MAXN][MAXS][MAXN], haveK[MAXN][MAXS];
	u64 sent[MAXN][MAXN], recvs[MAXN];
	std::vector<std::shared_ptr<Packet> > seen; // honest messages
	std::priority_queue<Event> q;
	u64 seq;
	u64 order;
	u64 delivered, accepted, faults;
} *m;

std::string who(int i) { const NodeCfg& c = m->cfg[i]; return strf("t=%d party %d (mode=%d mulx=%d vendor=%d bmi2=%d route=%d style=%d)", m->now, i, c.mode, c.mulx, c.vendor, c.bmi2, c.route, c.style); }
std::string show(const std::string& s) { std::string e = escText(s); return e.size() > 500 ? e.substr(0, 500) + "..." : e; }
// ---- model of the protocols
P1 hashPoint(const std::string& msg)
{
	Z x = M::md(hexZ(hex256(msg))), e = (M::C.p + 1) / 4;
	for (;;) {
		Z y2 = M::fadd(M::fmul(M::fmul(x, x), x), M::md(Z(M::C.b)));
		Z y = M::fpow(y2, e);
		if (M::fmul(y, y) == y2) return P1(x, mpz_odd_p(y.get_mpz_t()) ? M::fneg(y) : y);
		x = M::fadd(x, Z(1));
	}
}
std::string coords(const P1& p, const P2& q) { return p.x.get_str() + "|" + p.y.get_str() + "|[" + q.x.a.get_str() + "," + q.x.b.get_str() + "]|[" + q.y.a.get_str() + "," + q.y.b.get_str() + "]"; }
P1 signJ(int k, int i, const P1& p, const P2& q) { return M::mul(hashPoint(signedText('J', k, i) + coords(p, q)), m->sk[i]); }
Contribution& honest(int k, int i)
{
	Session& s = m->s[k];
	Contribution& c = s.c[i];
	if (c.set) return c;
	c.set = true;
	switch (s.type) {
	case 'J':
		s.a[i] = M::mdm(hexZ(hex256("0x" + m->sk[i].get_str(16) + strf("|%d", k))), M::C.r);
		c.p1 = mul1(s.a[i]);
		c.p2 = mul2(s.a[i]);
		c.sig = signJ(k, i, c.p1, c.p2);
		break;
	case 'S': c.sig = M::mul(hashPoint(signedText('S', k, i)), m->share[i]); break;
	default: c.sig = M::mul(hashPoint(signedText('A', k, i)), m->sk[i]); break;
	}
	return c;
}
const F12& keyOf(int k)
{
	Session& s = m->s[k];
	if (!s.keySet) {
		Z e = 1;
		for (int i = 0; i < 3; i++) { honest(k, i); e *= s.a[i]; }
		s.K = gt(e);
		for (int i = 0; i < 3; i++) s.c[i].conf = M::pow(s.K, Z(2 + i));
		s.keySet = true;
	}
	return s.K;
}
Val valK(const F12& x)
{
	Val v(A::KK);
	for (int i = 0; i < 6; i++) { int j = i < 3 ? 2 * i : 2 * i - 5; v.c[2 * i] = x.c[j].a; v.c[2 * i + 1] = x.c[j].b; }
	return v;
}
std::string modelText(const Val& v, Rng& r, int st) { return A::text(v, r, st); }
// ---- processes
void stopAll()
{
	for (int i = 0; i < m->n; i++) if (m->proc[i].up) { close(m->proc[i].to); close(m->proc[i].from); }
}
void bad(const std::string& cls, const std::string& s) { violate(cls, s); }
Msg call(int i, const Msg& q)
{
	Msg r;
	Proc& p = m->proc[i];
	if (!sendMsg(p.to, q) || !recvMsg(p.from, r)) {
		int st = 0;
		waitpid(p.pid, &st, 0);
		std::string h = WIFSIGNALED(st) ? strf("signal %d", WTERMSIG(st)) : strf("status %d", WEXITSTATUS(st));
		if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) bad("party-hangs", who(i) + " does not come back from " + q[0]);
		bad("party-ended", who(i) + " ended with " + h + " at " + q[0] + (q[0] == "recv" ? " of " + show(q[3]) : std::string()));
	}
	if (!r.empty() && r[0] == "failed") bad("party-failed", who(i) + ": " + r[1] + " at " + q[0]);
	return r;
}
std::string started()
{
	std::string s;
	for (int k = 0; k < MAXS; k++) s += m->s[k].in && m->now >= m->s[k].start ? '1' : '0';
	return s;
}
void events(int i, const Msg& r, size_t from);
void handleRecv(int i, const Packet& pk, const Msg& r);
void spawn(int i)
{
	int a[2], b[2];
	if (pipe(a) || pipe(b)) violate("harness-error", "pipe");
	pid_t pid = fork();
	if (pid < 0) violate("harness-error", "fork");
	if (pid == 0) nodeMain(m->cfg[i], a[0], b[1]);
	close(a[0]);
	close(b[1]);
	Proc& p = m->proc[i];
	p.pid = pid;
	p.to = a[1];
	p.from = b[0];
	p.up = true;
	Rng r(m->cfg[i].garbage + 77);
	Msg q;
	q.push_back("init");
	q.push_back(std::to_string(m->n));
	q.push_back(std::to_string(m->t));
	q.push_back(std::to_string(i));
	q.push_back(m->sk[i].get_str());
	q.push_back("0x" + m->share[i].get_str(16));
	q.push_back(modelText(A::of(M::g1()), r, (int)r.below(8)));
	q.push_back(modelText(A::of(M::g2()), r, (int)r.below(8)));
	q.push_back(modelText(A::of(mul2(m->group)), r, (int)r.below(8)));
	for (int j = 0; j < m->n; j++) q.push_back(modelText(A::of(mul2(m->sk[j])), r, (int)r.below(8)));
	for (int j = 0; j < m->n; j++) q.push_back(modelText(A::of(mul2(m->share[j])), r, (int)r.below(8)));
	for (int k = 0; k < MAXS; k++) q.push_back(m->s[k].in ? std::string(1, m->s[k].type) : "-");
	call(i, q);
	for (int k = 0; k < MAXS; k++) { m->haveK[i][k] = false; for (int j = 0; j < MAXN; j++) m->acc[i][k][j] = m->conf[i][k][j] = false; }
	// the log
	Msg st;
	st.push_back("start");
	st.push_back(started());
	call(i, st);
	std::vector<std::pair<std::string, bool> > old;
	old.swap(m->log[i]);
	for (size_t j = 0; j < old.size(); j++) {
		Packet pk = { i, i, old[j].first, old[j].second, false, true, j };
		Msg x;
		x.push_back("recv");
		x.push_back(std::to_string(j * 3));
		x.push_back("0");
		x.push_back(pk.text);
		handleRecv(i, pk, call(i, x));
	}
	if (!old.empty()) stat("log-lines-restored", old.size());
}
void crash(int i)
{
	Proc& p = m->proc[i];
	if (!p.up) return;
	kill(p.pid, SIGKILL);
	close(p.to);
	close(p.from);
	int st;
	waitpid(p.pid, &st, 0);
	p.up = false;
}
// ---- network
void push(int t, int kind, int node, std::shared_ptr<Packet> pk = std::shared_ptr<Packet>(), const Step *st = 0)
{
	Event e = { t, m->seq++, kind, node, pk, st };
	m->q.push(e);
}
void transmit(int from, int to, const std::string& text)
{
	const u64 nth = m->sent[from][to]++;
	int delay = 1 + (int)(h64(strf("%d %d %llu", from, to, (unsigned long long)nth), m->p->hu("net")) % m->p->hu("maxdelay", 8));
	bool drop = false, dup = false;
	int extra = 0;
	std::shared_ptr<Packet> pk(new Packet);
	Packet q = { from, to, text, false, false, false, h64(strf("%d %d %llu", from, to, (unsigned long long)nth), 99) };
	*pk = q;
	m->seen.push_back(std::shared_ptr<Packet>(new Packet(q)));
	if (m->now < m->quiet) {
		for (size_t i = 0; i < m->p->steps.size(); i++) {
			const Step& s = m->p->steps[i];
			if (s.op() == "cut") { // cut a b t1 t2
				int a = (int)s.u(1), b = (int)s.u(2);
				if (((a == from && b == to) || (a == to && b == from)) && m->now >= s.i(3) && m->now < s.i(4)) { drop = true; stat("fault.partition-loss"); }
				continue;
			}
			if (s.n() < 4 || (int)s.u(1) != from || (int)s.u(2) != to || s.u(3) != nth) continue;
			if (s.op() == "drop") { drop = true; stat("fault.message-lost"); }
			else if (s.op() == "dup") { dup = true; extra = (int)s.u(4); stat("fault.message-duplicated"); }
			else if (s.op() == "delay") { delay += (int)s.u(4); stat("fault.message-delayed"); }
			else if (s.op() == "damage") { Rng r(s.u(4)); pk->text = A::damage(text, r); pk->damaged = pk->text != text; if (pk->damaged) stat("fault.message-damaged"); }
			else continue;
			m->faults++;
		}
		if (m->now + delay > m->quiet + 10) delay = std::max(1, m->quiet + 10 - m->now);
	} else {
		delay = 1 + delay % 8;
	}
	if (dup) push(m->now + delay + extra, 1, to, std::shared_ptr<Packet>(new Packet(*pk)));
	if (!drop) push(m->now + delay, 1, to, pk);
}
// what an honest party sent must denote what the protocol says
void checkSent(int i, const std::string& text)
{
	std::istringstream is(text);
	char ty = 0;
	int k = -1, sender = -1;
	is >> ty >> k >> sender;
	std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
	std::vector<Val> want;
	if (!is.eof() && !is) bad("wrong-message", who(i) + " sent " + show(text));
	Contribution& c = honest(k, i);
	if (ty == 'J') { want.push_back(A::of(c.p1)); want.push_back(A::of(c.p2)); want.push_back(A::of(c.sig)); }
	else if (ty == 'C') { keyOf(k); want.push_back(valK(c.conf)); }
	else want.push_back(A::of(c.sig));
	A::Reader rd(rest);
	for (size_t j = 0; j < want.size(); j++) {
		Val v(want[j].k);
		if (!rd.value(v) || v != want[j]) bad("wrong-message", who(i) + " sent " + show(text) + " instead of " + want[j].str());
	}
	rd.ws();
	if (rd.i != rest.size()) bad("wrong-message", who(i) + " sent " + show(text));
}
void events(int i, const Msg& r, size_t at)
{
	for (; at < r.size();) {
		const std::string& e = r[at];
		if (e == "send") {
			const std::string& text = r[at + 1];
			checkSent(i, text);
			for (int j = 0; j < m->n; j++) if (j != i) transmit(i, j, text);
			at += 2;
			continue;
		}
		if (at + 2 >= r.size()) violate("harness-error", "answer of a party");
		const int k = atoi(r[at + 1].c_str());
		const std::string& raw = r[at + 2];
		if (e == "key") {
			if (raw.size() != sizeof(bn::Fp12)) violate("harness-error", "key");
			bn::Fp12 K;
			memcpy((void *)&K, raw.data(), raw.size());
			if (!canon(K) || !(val(K) == keyOf(k))) bad("different-key", who(i) + strf(" derived a wrong key in session %d", k));
			m->haveK[i][k] = true;
			ev("key", k);
			stat("keys-agreed");
		} else {
			if (raw.size() != sizeof(bn::Ec1)) violate("harness-error", "point");
			bn::Ec1 P;
			memcpy((void *)&P, raw.data(), raw.size());
			P1 want;
			if (e == "comb" || e == "combfail") want = M::mul(hashPoint(signedText('S', k, 0)), m->group);
			else for (int j = 0; j < m->n; j++) want = M::add(want, honest(k, j).sig);
			if (!(affine(P) == want)) bad("wrong-signature", who(i) + strf(" computed a wrong %s signature in session %d", e.c_str(), k));
			if (e == "combfail" || e == "aggfail") bad("honest-rejected", who(i) + strf(" rejected a right %s signature in session %d", e.c_str(), k));
			stat(e == "comb" ? "signatures-combined" : "signatures-aggregated");
		}
		ev(e + strf(" %d %d", i, k));
		m->order = hashStr(strf("%s %d %d", e.c_str(), i, k), m->order);
		at += 3;
	}
}
// what a party read from a message, whether it trusts it or not, must be what the text denotes, and on its curve
void checkRead(const std::string& what, const std::string& text, const std::string& raw)
{
	std::istringstream is(text);
	std::string ty;
	int k, sender;
	is >> ty >> k >> sender;
	std::string rest((std::istreambuf_iterator<char>(is)), std::istreambuf_iterator<char>());
	const char *kinds = ty == "C" ? "k" : ty == "J" ? "pqp" : "p";
	A::Reader rd(rest);
	size_t at = 0;
	for (const char *c = kinds; *c; c++) {
		const int kd = A::kindOf(*c);
		std::vector<u64> mem(A::sizeOf(kd) / 8 + 1);
		if (at + A::sizeOf(kd) > raw.size()) violate("harness-error", "read");
		memcpy(&mem[0], raw.data() + at, A::sizeOf(kd));
		at += A::sizeOf(kd);
		Val v(kd);
		if (!rd.value(v)) bad("misread", what + " and reads " + A::get(kd, &mem[0]).str());
		v = v.reduced();
		if (!v.onCurve() || !A::canon(kd, &mem[0]) || A::get(kd, &mem[0]) != v) bad("misread", what + " and reads " + A::get(kd, &mem[0]).str() + " from the text of " + v.str());
	}
	rd.ws();
	if (rd.i != rest.size()) bad("misread", what + " and ignores a part of it");
	stat("messages-read");
}
void handleRecv(int i, const Packet& pk, const Msg& r)
{
	if (r.size() < 4) violate("harness-error", "answer");
	const std::string& v = r[0];
	const bool oomFired = r[2] != "0";
	if (oomFired) { stat("fault.allocation-failed"); m->faults++; }
	std::string what = who(i) + (pk.log ? " reads from its log " : strf(" gets from %d ", pk.from)) + (pk.damaged ? "(damaged) " : pk.forged ? "(forged) " : "") + show(pk.text);
	if (!r[3].empty()) checkRead(what, pk.text, r[3]);
	if (v == "acc") {
		if (r.size() < 8) violate("harness-error", "answer");
		const char ty = r[4][0];
		const int k = atoi(r[5].c_str()), sender = atoi(r[6].c_str());
		const std::string& raw = r[3];
		Contribution& c = honest(k, sender);
		if (ty == 'C') {
			bn::Fp12 K;
			memcpy((void *)&K, raw.data(), sizeof K);
			keyOf(k);
			if (!(val(K) == c.conf)) bad("forged-accepted", what + " and accepts it");
			m->conf[i][k][sender] = true;
		} else {
			bn::Ec1 P[2];
			bn::Ec2 Q;
			const char *p = raw.data();
			if (ty == 'J') {
				memcpy((void *)&P[0], p, sizeof P[0]);
				memcpy((void *)&Q, p + sizeof P[0], sizeof Q);
				p += sizeof P[0] + sizeof Q;
				if (!(affine(P[0]) == c.p1) || !(affine(Q) == c.p2)) bad("forged-accepted", what + " and accepts other points");
			}
			memcpy((void *)&P[1], p, sizeof P[1]);
			if (!(affine(P[1]) == c.sig)) bad("forged-accepted", what + " and accepts the signature");
			m->acc[i][k][sender] = true;
		}
		m->accepted++;
		stat(pk.damaged || pk.forged ? "accepted-damaged-same-value" : "accepted");
		m->log[i].push_back(std::make_pair(r[7], false));
		m->order = hashStr(strf("acc %d %c %d %d", i, ty, k, sender), m->order);
		ev(strf("acc %d %c %d %d", i, ty, k, sender));
		cover(hashStr(strf("%c %d %d %d %d %d", ty, m->cfg[i].mode, m->cfg[i].mulx, m->cfg[i].route, pk.forged, pk.damaged)));
		events(i, r, 8);
		return;
	}
	ev(v + strf(" %d", i));
	stat("verdict." + v + (pk.forged ? ".forged" : pk.damaged ? ".damaged" : ""));
	m->order = hashStr(v, m->order);
	if (v == "oom") {
		if (!oomFired) bad("honest-rejected", what + ": memory reported missing: " + r[1]);
		return;
	}
	if (pk.damaged || pk.forged) { cover(v + r[1]); return; }
	char ty = 0;
	int k = 0, sender = 0;
	std::istringstream is(pk.text);
	is >> ty >> k >> sender;
	if (v == "rej") bad("honest-rejected", what + " and rejects it: " + r[1]);
	if (v == "dup" && sender != i && !(ty == 'C' ? m->conf[i][k][sender] : m->acc[i][k][sender])) bad("lost", what + " and takes it for known");
	if (v == "later") {
		bool startedThere = m->s[k].in && m->now >= m->s[k].start;
		if (ty != 'C' && startedThere && pk.log) bad("lost", what + " and does not know the session");
		if (ty == 'C' && m->haveK[i][k]) bad("lost", what + " and does not know the key");
	}
}
void deliver(int i, const Packet& pk)
{
	if (!m->proc[i].up) { stat("lost-receiver-down"); return; }
	long oom = 0;
	const u64 nth = m->recvs[i]++;
	for (size_t j = 0; j < m->p->steps.size(); j++) {
		const Step& s = m->p->steps[j];
		if (s.op() == "oom" && (int)s.u(1) == i && s.u(2) == nth && m->now < m->quiet) oom = (long)s.u(3);
	}
	Msg q;
	q.push_back("recv");
	q.push_back(std::to_string(pk.pieces));
	q.push_back(std::to_string(oom));
	q.push_back(pk.text);
	m->delivered++;
	handleRecv(i, pk, call(i, q));
}
// ---- the adversary knows all messages and, as an insider, the key of the sender it names
void forge(const Step& st) // forge time to kind sess sender seed
{
	const int to = (int)st.u(2) % m->n, kind = (int)st.u(3), k = (int)st.u(4) % MAXS;
	Session& s = m->s[k];
	if (!s.in || m->now < s.start) return;
	const int np = s.type == 'J' ? 3 : m->n;
	const int sender = (int)st.u(5) % np;
	Rng r(st.u(6));
	Contribution c = honest(k, sender);
	std::string text = strf("%c %d %d ", s.type, k, sender);
	const int style = (int)r.below(8);
	if (kind >= 20) { // another message under this header, or the same once more
		if (m->seen.empty()) return;
		const Packet& o = *m->seen[r.below(m->seen.size())];
		std::string t = o.text;
		if (kind == 21) {
			size_t a = t.find(' ', t.find(' ', 2) + 1);
			t = std::string(1, t[0]) + strf(" %d %d", k, sender) + t.substr(a);
		}
		std::shared_ptr<Packet> pk(new Packet(o));
		pk->text = t;
		pk->to = to;
		pk->forged = t != o.text;
		stat(kind == 21 ? "fault.forged" : "fault.replayed");
		m->faults++;
		push(m->now + 1, 1, to, pk);
		return;
	}
	bool ok = true;
	std::string sigText;
	switch (kind) {
	case 0: c.sig = M::mul(M::g1(), genScalar(r)); break;
	case 1: c.sig = M::add(c.sig, M::g1()); break;
	case 2: c.sig = M::neg(c.sig); break;
	case 3: { int k2 = (int)r.below(MAXS); if (!m->s[k2].in || k2 == k) ok = false; else c.sig = honest(k2, sender % (m->s[k2].type == 'J' ? 3 : m->n)).sig; break; }
	case 4: c.sig = honest(k, (sender + 1) % np).sig; break;
	case 5: c.sig = P1(); break;
	case 6: c.sig.y = M::fadd(c.sig.y, Z(1)); break;
	case 7: c.sig = M::add(c.sig, honest(k, (sender + 1) % np).sig); break;
	case 8: { Val v = A::of(c.sig); v.c[r.below(2)] += M::C.p; sigText = A::text(v, r, style); break; }
	case 9: c.sig = M::add(c.sig, c.sig); break;
	// insider: points which do not belong to the groups or do not fit, signed properly
	default:
		if (s.type != 'J') { c.sig = M::mul(hashPoint(signedText(s.type, k, sender)), s.type == 'S' ? m->sk[sender] : m->share[sender]); break; }
		switch (kind) {
		case 10: { // outside of the subgroup
			P2 q = c.p2;
			for (int j = 0; j < 20; j++) {
				F2 x(Z((unsigned long)r.next()), Z((unsigned long)r.next())), y;
				if (!M::sqrt2(y, x * x * x + M::C.bxi)) continue;
				P2 o(x, y);
				q = r.chance(1, 2) ? o : M::add(c.p2, M::mul(o, M::C.r));
				break;
			}
			c.p2 = q;
			break;
		}
		case 11: c.p1 = M::add(c.p1, M::g1()); break;
		case 12: c.p2 = M::add(c.p2, M::g2()); break;
		case 13: c.p1 = P1(); c.p2 = P2(); break;
		case 14: c.p1.x = M::fmul(c.p1.x, Z(7)); break;
		case 15: c.p2.y = M::conj(c.p2.y); break;
		default: c.p1 = M::neg(c.p1); break;
		}
		if (c.p1.inf || c.p2.inf) c.sig = M::mul(M::g1(), m->sk[sender]);
		else c.sig = signJ(k, sender, c.p1, c.p2);
	}
	if (!ok) return;
	if (sigText.empty()) sigText = A::text(A::of(c.sig), r, style);
	if (s.type == 'J' && r.chance(1, 4)) { // a confirmation
		F12 f = kind == 5 ? M::one12() : kind == 6 ? M::zero12() : kind == 7 ? keyOf(k) : gt(Z((unsigned long)r.next()));
		if (kind == 8 || kind == 9) { keyOf(k); f = honest(k, (sender + 1) % 3).conf; }
		text[0] = 'C';
		text += A::text(valK(f), r, style);
	} else if (s.type == 'J') {
		text += A::text(A::of(c.p1), r, style) + " " + A::text(A::of(c.p2), r, style) + " " + sigText;
	} else {
		text += sigText;
	}
	stat("fault.forged");
	m->faults++;
	std::shared_ptr<Packet> pk(new Packet);
	Packet o = { sender, to, text, false, true, false, r.next() >> 8 };
	*pk = o;
	push(m->now + 1, 1, to, pk);
}
void readCfg(NodeCfg& c, const std::string& t)
{
	std::istringstream is(t);
	is >> c.mode >> c.mulx >> c.vendor >> c.bmi2 >> c.route >> c.style >> c.garbage;
	c.b = m->b;
}
void exec(const Plan& p)
{
	Sim sim;
	m = &sim;
	m->p = &p;
	m->n = (int)p.hi("n", 3);
	m->t = (int)p.hi("t", 2);
	m->b = (int)p.hi("b", 2);
	m->quiet = (int)p.hi("quiet", 100);
	m->now = 0;
	m->seq = 0;
	m->order = 1;
	m->delivered = m->accepted = m->faults = 0;
	memset(m->acc, 0, sizeof m->acc);
	memset(m->conf, 0, sizeof m->conf);
	memset(m->haveK, 0, sizeof m->haveK);
	memset(m->sent, 0, sizeof m->sent);
	memset(m->recvs, 0, sizeof m->recvs);
	std::vector<Z> co;
	for (int i = 0; i < m->t; i++) co.push_back(M::mdm(hexZ(hex256(p.hs("keys") + strf("f%d", i))), M::C.r));
	m->group = co[0];
	for (int i = 0; i < m->n; i++) {
		m->sk[i] = M::mdm(hexZ(hex256(p.hs("keys") + strf("k%d", i))), M::C.r);
		if (p.hu("smallkeys")) m->sk[i] = Z((unsigned long)(1 + h64(p.hs("keys"), i) % 5));
		Z x = 0;
		for (int j = m->t - 1; j >= 0; j--) x = M::mdm(x * (i + 1) + co[j], M::C.r);
		m->share[i] = x;
		readCfg(m->cfg[i], p.hs(strf("node%d", i).c_str()));
		m->proc[i].up = false;
	}
	for (int k = 0; k < MAXS; k++) { m->s[k].in = false; m->s[k].keySet = false; for (int i = 0; i < MAXN; i++) m->s[k].c[i].set = false; }
	int nsess = 0;
	for (size_t i = 0; i < p.steps.size(); i++) {
		const Step& s = p.steps[i];
		const std::string& o = s.op();
		if (o == "session") {
			Session& x = m->s[s.u(1) % MAXS];
			if (!x.in) nsess++;
			x.in = true;
			x.type = s.s(2)[0];
			x.start = (int)s.u(3);
		} else if (o == "crash") push((int)s.u(1), 2, (int)s.u(2) % m->n, std::shared_ptr<Packet>(), &s);
		else if (o == "forge") push((int)s.u(1), 4, 0, std::shared_ptr<Packet>(), &s);
		else if (o == "reinit") push((int)s.u(1), 5, (int)s.u(2) % m->n, std::shared_ptr<Packet>(), &s);
		else if (o == "garbage") push((int)s.u(1), 6, (int)s.u(2) % m->n, std::shared_ptr<Packet>(), &s);
	}
	if (!nsess) endRun();
	m->end = m->quiet + 80;
	for (int i = 0; i < m->n; i++) { spawn(i); push((int)(h64("tick", i + p.hu("net")) % 10), 0, i); }
	while (!m->q.empty()) {
		Event e = m->q.top();
		m->q.pop();
		if (e.t > m->end) break;
		m->now = e.t;
		setStep(e.st ? (u64)(e.st - &p.steps[0]) : 0);
		switch (e.kind) {
		case 0:
			push(m->now + 10, 0, e.node);
			if (m->proc[e.node].up) {
				Msg q;
				q.push_back("tick");
				q.push_back(started());
				ev("tick", e.node);
				events(e.node, call(e.node, q), 0);
			}
			break;
		case 1: deliver(e.node, *e.pk); break;
		case 2: { // crash time node down lost torn seed cfg...
			const Step& s = *e.st;
			if (!m->proc[e.node].up || m->now >= m->quiet) break;
			crash(e.node);
			stat("fault.crash");
			m->faults++;
			std::vector<std::pair<std::string, bool> >& l = m->log[e.node];
			for (u64 j = s.u(4); j && !l.empty(); j--) { l.pop_back(); stat("fault.log-line-lost"); }
			Rng r(s.u(6));
			if (s.u(5) && !l.empty()) {
				std::string o = l.back().first;
				if (s.u(5) == 1) { o = o.substr(0, r.below(o.size())); stat("fault.log-torn"); }
				else { o = A::damage(o, r); stat("fault.log-damaged"); }
				if (o != l.back().first) l.back() = std::make_pair(o, true);
			}
			readCfg(m->cfg[e.node], strf("%d %d %d %d %d %d %d", (int)r.below(3) - 1, (int)r.below(2), (int)r.below(3), (int)r.below(2), (int)r.below(64), (int)r.below(256), (int)r.below(256)));
			ev("crash", e.node);
			push(std::min(m->quiet, m->now + 1 + (int)s.u(3)), 3, e.node);
			break;
		}
		case 3:
			if (!m->proc[e.node].up) { spawn(e.node); ev("restart", e.node); }
			break;
		case 4: if (m->now < m->quiet) forge(*e.st); break;
		case 5: if (m->proc[e.node].up) {
			Msg q;
			q.push_back("reinit");
			q.push_back(e.st->s(3));
			q.push_back(e.st->s(4));
			q.push_back(e.st->s(5) == "1" ? "other" : "");
			m->cfg[e.node].mode = atoi(e.st->s(3).c_str());
			m->cfg[e.node].mulx = atoi(e.st->s(4).c_str());
			call(e.node, q);
			stat("fault.reinit");
			m->faults++;
			break;
		} break;
		case 6: if (m->proc[e.node].up) {
			Msg q;
			q.push_back("garbage");
			q.push_back(e.st->s(3));
			call(e.node, q);
			stat("fault.garbage");
			break;
		} break;
		}
	}
	// progress: all messages of all sessions known everywhere
	for (int i = 0; i < m->n; i++) for (int k = 0; k < MAXS; k++) {
		if (!m->s[k].in || (m->s[k].type == 'J' && i > 2)) continue;
		for (int j = 0; j < (m->s[k].type == 'J' ? 3 : m->n); j++) {
			if (j == i) continue;
			if (!m->acc[i][k][j] || (m->s[k].type == 'J' && !m->conf[i][k][j])) { m->now = m->end; bad("no-progress", who(i) + strf(" did not finish session %d (%c) with party %d", k, m->s[k].type, j)); }
		}
	}
	stopAll();
	stat("sim.time_units", m->end);
	stat("messages-delivered", m->delivered);
	stat("sessions-finished", nsess);
	cover(m->order);
	ev("order", m->order);
	if (m->accepted >= 2 && m->delivered >= 4) nontrivial();
	sample(strf("%d parties, %d sessions, %llu messages delivered, %llu accepted, %llu faults", m->n, nsess, (unsigned long long)m->delivered, (unsigned long long)m->accepted, (unsigned long long)m->faults));
	for (int i = 0; i < m->n; i++) { int st; waitpid(m->proc[i].pid, &st, 0); }
}
void gen(Rng& r, Plan& p, bool thorough)
{
	genCfg(r, p);
	const int n = (int)r.range(3, 4);
	p.set("n", n);
	p.set("t", (int)r.range(1, n));
	p.set("keys", r.next() >> 16);
	p.set("net", r.next() >> 16);
	p.set("maxdelay", r.chance(1, 4) ? 25 : r.range(1, 9));
	if (r.chance(1, 12)) p.set("smallkeys", 1);
	for (int i = 0; i < n; i++) p.set(strf("node%d", i).c_str(), strf("%d %d %d %d %d %d %d", (int)r.below(3) - 1, (int)r.below(2), r.chance(1, 2) ? 0 : (int)r.below(3), r.chance(2, 3) ? 1 : 0, (int)r.below(64), (int)r.below(256), (int)r.below(256)));
	const int quiet = (int)r.range(30, thorough ? 160 : 80), ns = (int)r.range(1, thorough ? 6 : 3);
	p.set("quiet", quiet);
	std::vector<int> at;
	for (int k = 0; k < ns; k++) {
		at.push_back((int)r.below(r.chance(1, 2) ? 2 : quiet - 5));
		p.add(StepB("session")(k)(r.chance(1, 2) ? "J" : r.chance(1, 2) ? "S" : "A")(at[k]));
	}
	const int f = (int)r.below(thorough ? 80 : 40);
	std::vector<int> kinds;
	for (int i = 0; i < 10; i++) if (r.chance(2, 3)) kinds.push_back(i);
	const int msgs = quiet / 10 * ns * 2;
	for (int i = 0; i < f && !kinds.empty(); i++) {
		int a = (int)r.below(n), b = (a + 1 + (int)r.below(n - 1)) % n, k = (int)r.below(ns);
		u64 nth = r.below(msgs + 1);
		if (r.chance(1, 2)) nth = r.below(2 * ns + 1);
		switch (r.pick(kinds)) {
		case 0: p.add(StepB("drop")(a)(b)(nth)); break;
		case 1: p.add(StepB("dup")(a)(b)(nth)((int)r.below(40))); break;
		case 2: p.add(StepB("delay")(a)(b)(nth)(r.range(1, 60))); break;
		case 3: case 4: p.add(StepB("damage")(a)(b)(nth)(r.next() >> 16)); break;
		case 5: { int t = (int)r.below(quiet); p.add(StepB("cut")(a)(b)(t)(t + (int)r.range(5, quiet))); break; }
		case 6: if (r.chance(1, 3)) p.add(StepB("crash")(r.range(1, quiet))(a)(r.range(1, 30))((int)r.below(3))((int)r.below(3))(r.next() >> 16)); break;
		case 7: p.add(StepB("forge")(r.chance(2, 3) ? std::min(quiet - 1, at[k] + (int)r.below(14)) : (int)r.below(quiet))(b)(r.chance(1, 3) ? (int)r.range(20, 21) : (int)r.below(17))(k)(a)(r.next() >> 16)); break;
		case 8: p.add(StepB("oom")(a)(r.chance(1, 2) ? r.below(6) : r.below(msgs))(r.range(1, 40))); break;
		case 9:
			if (r.chance(1, 2)) p.add(StepB("reinit")(r.below(quiet + 40))(a)((int)r.below(3) - 1)((int)r.below(2))((int)r.below(2)));
			else p.add(StepB("garbage")(r.below(quiet + 40))(a)(r.below(1000)));
			break;
		}
	}
}
void prep(const Plan& p)
{
	initModel(p);
	baseTable();
	mul1(Z(1));
	mul2(Z(1));
}
World w("net", gen, exec, prep);
}
