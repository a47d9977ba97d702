// shared by the harnesses
#ifndef VP_HARNESS_COMMON_H
#define VP_HARNESS_COMMON_H
#include "vp.h"
#include <string>
#include <vector>
#include <list>
#include <sstream>
#include <stdexcept>
typedef long long ll;
// a decimal number of exactly `width` digits (zero padded) as text, without branching on its value
static inline std::string digits (ll v, int width)
{
	std::string s (width, '0');
	for (int i = width - 1; i >= 0; --i) { s[i] = (char) ('0' + v % 10); v /= 10; }
	return s;
}
// branch-free conjunction of obligations: collect with `all.add(...)`
struct All {
	int v;
	All () : v(1) {}
	void add (int c) { v = (int) vp_ite(c, v, 0); }
};
#define BOTH(a, b) ((int) vp_ite((a), (b), 0))
#define EITHER(a, b) ((int) vp_ite((a), 1, (b)))
#endif
