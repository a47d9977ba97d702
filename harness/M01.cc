//@ src sub_time.cc rational.cc exceptions.cc
//@ case 0 both rated :: rates from a list of 13, any whole seconds 0..2000000, any frames below the rate [quick=120]
//@ case 1 both rated, symbolic rates, same second :: numerators 1..120000, denominators 1..1001, any frames below the rate [quick=60] [qtimeout=4000]
//@ case 2 both rated, symbolic rates, different seconds :: numerators 1..120000, denominators 1..1001 [quick=60]
//@ case 3 neither rated :: seconds 0..2000000, frames -2^31..2^31-1 [quick=30]
//@ case 4 one rated :: seconds 0..2000000, frames below the rate [quick=60]
//@ cover 0: less, greater, equal
//@ cover 1: less, greater, equal
//@ cover 2: less, greater
//@ cover 3: less, greater, equal
//@ cover 4: throws
//@ assume Times are normalised: 0 <= frames/rate < 1 second (as every reader and Time operation produces)
#include "common.h"
#include "sub_time.h"
#include "exceptions.h"
using namespace sub;

static int const nrates = 13;
static int const num[nrates] = {24, 25, 30, 50, 60, 1000, 24000, 30000, 60000, 23976, 2997, 1, 120};
static int const den[nrates] = {1, 1, 1, 1, 1, 1, 1001, 1001, 1001, 1000, 100, 1, 1};

static void label (bool lt, bool gt, bool eq)
{
	if (lt) vp_cover("less");
	if (gt) vp_cover("greater");
	if (eq) vp_cover("equal");
}

static void agree (Time const& a, Time const& b, int lt, int gt, int eq)
{
	bool l = a < b, g = a > b, e = a == b, n = a != b;
	vp_observe(l * 8 + g * 4 + e * 2 + n);
	vp_assert(l == (lt != 0), "a < b is not chronological order");
	vp_assert(g == (gt != 0), "a > b is not chronological order");
	vp_assert(e == (eq != 0), "a == b is not equality of the instants");
	vp_assert(n == (eq == 0), "a != b is not the negation of a == b");
	label(l, g, e);
}

extern "C" void vp_harness ()
{
	ll const smax = 2000000;
	switch (vp_case()) {
	case 0: {
		int r1 = vp_choice("rate of a", nrates), r2 = vp_choice("rate of b", nrates);
		if (vp_tier() == 0 && r1 > r2 && ((r1 + r2) & 1)) vp_stop();
		ll n1 = num[r1], d1 = den[r1], n2 = num[r2], d2 = den[r2];
		ll s1 = vp_range("seconds of a", 0, smax), s2 = vp_range("seconds of b", 0, smax);
		ll f1 = vp_range("frames of a", 0, (n1 - 1) / d1), f2 = vp_range("frames of b", 0, (n2 - 1) / d2);
		Time a = Time::from_hmsf(0, 0, (int) s1, (int) f1, Rational(n1, d1)), b = Time::from_hmsf(0, 0, (int) s2, (int) f2, Rational(n2, d2));
		ll x = (s1 * n1 + f1 * d1) * n2, y = (s2 * n2 + f2 * d2) * n1;
		agree(a, b, x < y, x > y, x == y);
		break;
	}
	case 1: case 2: {
		ll n1 = vp_range("numerator of a", 1, 120000), d1 = vp_range("denominator of a", 1, 1001), n2 = vp_range("numerator of b", 1, 120000), d2 = vp_range("denominator of b", 1, 1001);
		vp_assume((n1 >= d1) & (n2 >= d2));
		ll f1 = vp_range("frames of a", 0, 119999), f2 = vp_range("frames of b", 0, 119999);
		ll s1 = vp_range("seconds of a", 0, smax), s2 = s1;
		vp_assume((f1 * d1 < n1) & (f2 * d2 < n2));
		if (vp_case() == 2) {
			s2 = vp_range("seconds of b", 0, smax);
			vp_assume(s1 != s2);
		}
		Time a = Time::from_hmsf(0, 0, (int) s1, (int) f1, Rational(n1, d1)), b = Time::from_hmsf(0, 0, (int) s2, (int) f2, Rational(n2, d2));
		if (vp_case() == 2) agree(a, b, s1 < s2, s1 > s2, 0);
		else agree(a, b, f1 * d1 * n2 < f2 * d2 * n1, f1 * d1 * n2 > f2 * d2 * n1, f1 * d1 * n2 == f2 * d2 * n1);
		break;
	}
	case 3: {
		ll s1 = vp_range("seconds of a", 0, smax), s2 = vp_range("seconds of b", 0, smax);
		ll f1 = vp_range("frames of a", -(1ll << 31), (1ll << 31) - 1), f2 = vp_range("frames of b", -(1ll << 31), (1ll << 31) - 1);
		Time a = Time::from_hmsf(0, 0, (int) s1, (int) f1), b = Time::from_hmsf(0, 0, (int) s2, (int) f2);
		agree(a, b, EITHER(s1 < s2, BOTH(s1 == s2, f1 < f2)), EITHER(s1 > s2, BOTH(s1 == s2, f1 > f2)), BOTH(s1 == s2, f1 == f2));
		break;
	}
	case 4: {
		int r = vp_choice("rate", nrates), order = vp_choice("which has the rate", 2), op = vp_choice("operator", 4);
		ll s1 = vp_range("seconds of a", 0, smax), s2 = vp_range("seconds of b", 0, smax);
		ll f1 = vp_range("frames of a", 0, (num[r] - 1) / den[r]), f2 = vp_range("frames of b", 0, (num[r] - 1) / den[r]);
		Time p = Time::from_hmsf(0, 0, (int) s1, (int) f1, Rational(num[r], den[r])), q = Time::from_hmsf(0, 0, (int) s2, (int) f2);
		Time const& a = order ? q : p;
		Time const& b = order ? p : q;
		ll sa = order ? s2 : s1, sb = order ? s1 : s2;
		bool threw = false, res = false;
		try {
			switch (op) {
			case 0: res = a < b; break;
			case 1: res = a > b; break;
			case 2: res = a == b; break;
			case 3: res = a != b; break;
			}
		} catch (UnknownFrameRateError&) {
			threw = true;
			vp_cover("throws");
		}
		vp_observe(threw * 2 + res);
		if (threw) return;
		// the seconds differ, so the rate does not matter
		vp_assert(sa != sb, "comparing a Time with a rate to one without did not raise UnknownFrameRateError");
		bool want = op == 0 ? sa < sb : op == 1 ? sa > sb : op == 2 ? false : true;
		vp_assert(res == want, "comparison with and without a rate is wrong for different seconds");
		break;
	}
	}
}
