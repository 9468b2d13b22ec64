// Powers of the generators by the model, from tables.
#pragma once
#include "bridge.h"
namespace B {
const int FB_WIN = 64;
inline std::vector<M::F12>& baseTable()
{
	static std::map<int, std::vector<M::F12> > all;
	std::vector<M::F12>& v = all[M::C.snark ? M::C.b : 0];
	if (v.empty()) {
		M::F12 g = M::baseGT();
		for (int i = 0; i < FB_WIN; i++) {
			M::F12 t = M::one12();
			for (int j = 0; j < 16; j++) { v.push_back(t); t = t * g; }
			g = t;
		}
	}
	return v;
}
// e(g2, g1)^e
inline M::F12 gt(const Z& e0)
{
	Z e = M::mdm(e0, M::C.r);
	std::vector<M::F12>& v = baseTable();
	M::F12 r = M::one12();
	for (int i = 0; i < FB_WIN; i++) {
		unsigned long w = Z(e >> (4 * i)).get_ui() & 15;
		if (w) r = r * v[i * 16 + w];
	}
	return r;
}
template<class P> P fixedMul(std::vector<P>& v, const P& g, const Z& e)
{
	if (v.empty()) {
		P t = g;
		for (int i = 0; i < 256; i++) { v.push_back(t); t = M::add(t, t); }
	}
	P r;
	for (int i = 0; i < 256; i++) if (mpz_tstbit(e.get_mpz_t(), i)) r = M::add(r, v[i]);
	return r;
}
inline M::P1 mul1(const Z& e) { static std::map<int, std::vector<M::P1> > t; return fixedMul(t[M::C.b], M::g1(), M::mdm(e, M::C.r)); }
inline M::P2 mul2(const Z& e) { static std::map<int, std::vector<M::P2> > t; return fixedMul(t[M::C.b], M::g2(), M::mdm(e, M::C.r)); }
}
