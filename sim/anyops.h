// The library's own text operations for every type of anyval.h.
#pragma once
#include "anyval.h"
#include <sstream>
namespace A {
inline void put(std::ostream& os, int k, const void *p)
{
	switch (k) {
	case KV: os << *(const mie::Vuint *)p; break;
	case KS: os << *(const mie::Vsint *)p; break;
	case KF: os << *(const bn::Fp *)p; break;
	case KG: os << *(const bn::Fp2 *)p; break;
	case KH: os << *(const bn::Fp6 *)p; break;
	case KK: os << *(const bn::Fp12 *)p; break;
	case KP: os << *(const bn::Ec1 *)p; break;
	case KQ: os << *(const bn::Ec2 *)p; break;
	}
}
inline void take(std::istream& is, int k, void *p)
{
	switch (k) {
	case KV: is >> *(mie::Vuint *)p; break;
	case KS: is >> *(mie::Vsint *)p; break;
	case KF: is >> *(bn::Fp *)p; break;
	case KG: is >> *(bn::Fp2 *)p; break;
	case KH: is >> *(bn::Fp6 *)p; break;
	case KK: is >> *(bn::Fp12 *)p; break;
	case KP: is >> *(bn::Ec1 *)p; break;
	case KQ: is >> *(bn::Ec2 *)p; break;
	}
}
inline std::string toText(int k, const void *p, int base)
{
	switch (k) {
	case KV: return ((const mie::Vuint *)p)->toString(base);
	case KS: return ((const mie::Vsint *)p)->toString(base);
	case KF: return ((const bn::Fp *)p)->toString(base);
	case KG: return ((const bn::Fp2 *)p)->toString(base);
	default: break;
	}
	std::ostringstream os;
	if (base == 16) os << std::hex;
	put(os, k, p);
	return os.str();
}
// other ways from text to an object
inline bool hasSet(int k) { return k <= KG; }
inline void setText(int k, void *p, const std::string& s, int how)
{
	switch (k) {
	case KV: if (how == 0) ((mie::Vuint *)p)->set(s); else if (how == 1) *(mie::Vuint *)p = mie::Vuint(s); else ((mie::Vuint *)p)->fromStr(s, 0); break;
	case KS: if (how == 0) ((mie::Vsint *)p)->set(s); else if (how == 1) *(mie::Vsint *)p = mie::Vsint(s); else ((mie::Vsint *)p)->fromStr(s); break;
	case KF: if (how != 1) ((bn::Fp *)p)->set(s); else *(bn::Fp *)p = bn::Fp(s); break;
	case KG: ((bn::Fp2 *)p)->set(s); break;
	}
}
}
