//@ src stl_util.cc exceptions.cc rational.cc
//@ case 0 every float rate is written as its code :: all 2^32 single-precision values [quick=120]
//@ case 1 every string as a disk format code :: eight-character strings with any two characters changed from a valid code, and lengths 0..9 [quick=60]
//@ case 2 round trip :: the four rates, with noise up to 2e-5 either way [quick=30]
//@ case 3 Rational :: numerators 0..2^31-1, denominators from 8 values [quick=60]
//@ case 4 ordering of Rationals :: numerators 0..2^31-1 and denominators 1..1001 for each, equality for any parts [quick=60]
//@ cover 0: 23.976, 24, 25, 30, other
//@ cover 1: known, refused
//@ cover 2: end
//@ cover 3: integer, fractional
//@ cover 4: end
//@ assume floating-point noise is at most 5e-5 frames per second; between 5e-5 and 2e-4 either code is accepted
#include "common.h"
#include "stl_util.h"
#include "rational.h"
#include "exceptions.h"
#include <cstring>
using namespace sub;

static double const rate[4] = {23.976, 24, 25, 30};
static char const* const code[4] = {"STL23.01", "STL24.01", "STL25.01", "STL30.01"};
static char const* const label[4] = {"23.976", "24", "25", "30"};

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		uint32_t bits = (uint32_t) vp_range("bits", 0, 0xffffffffll);
		float r;
		memcpy(&r, &bits, 4);
		std::string c = stl_frame_rate_to_dfc(r);
		int k = -1;
		for (int i = 0; i < 4; ++i) if (c == code[i]) k = i;
		vp_assert(k >= 0, "not a known disk format code");
		for (int i = 0; i < 4; ++i) {
			double d = (double) r - rate[i];
			int near = (d <= 5e-5) & (d >= -5e-5), far = !((d <= 2e-4) & (d >= -2e-4));
			if (k != i) vp_assert(!near, "a supported frame rate is not written as its own code");
			if (k == i && i != 2) vp_assert(!far, "a different frame rate is written as this code");
		}
		vp_observe(k);
		vp_cover(k == 2 && !(r == 25) ? "other" : label[k]);
		if (k == 2) vp_cover("25");
		break;
	}
	case 1: {
		int n = vp_choice("length", 10);
		std::string s = std::string(code[vp_choice("code", 4)]) + "1";
		s.resize(n);
		int a = vp_choice("position", 9), b = vp_choice("other position", 9);
		if (a < b || (a == b && a > 0)) vp_stop();
		if (a < n) s[a] = (char) vp_byte("character");
		if (b < n && b != a) s[b] = (char) vp_byte("other character");
		float r = 0;
		bool threw = false;
		try { r = stl_dfc_to_frame_rate(s); } catch (STLError&) { threw = true; }
		for (int i = 0; i < 4; ++i) {
			int same = n == 8 && vp_mem_eq(s.data(), code[i], 8);
			if (threw) vp_assert(!same, "a supported disk format code is refused");
			else if (r == (float) rate[i]) { vp_assert(same, "an unknown disk format code is accepted"); vp_cover("known"); }
		}
		if (threw) vp_cover("refused");
		else vp_assert(r == (float) rate[0] || r == (float) rate[1] || r == (float) rate[2] || r == (float) rate[3], "a disk format code gives a wrong rate");
		vp_observe(threw);
		break;
	}
	case 2: {
		int i = vp_choice("rate", 4);
		ll noise = vp_range("noise", 0, 200) - 100;
		float r = (float) (rate[i] + (double) noise * 2e-7);
		float back = stl_dfc_to_frame_rate(stl_frame_rate_to_dfc(r));
		double d = (double) back - rate[i];
		vp_assert((d < 1e-5) & (d > -1e-5), "a frame rate does not survive being written as a code");
		vp_assert(stl_frame_rate_to_dfc(stl_dfc_to_frame_rate(code[i])) == code[i], "a code does not survive being read as a rate");
		vp_cover("end");
		break;
	}
	case 3: {
		static int const dens[8] = {1, 2, 3, 7, 100, 1000, 1001, 90000};
		ll n = vp_range("numerator", 0, 0x7fffffff);
		int d = dens[vp_choice("denominator", 8)];
		Rational r ((int) n, d);
		bool i = r.integer();
		vp_assert(i == (n % d == 0), "integer() is not divisibility");
		if (i) vp_assert((ll) r.integer_fraction() * d == n, "integer_fraction() is not the quotient");
		vp_assert((r.numerator == n) & (r.denominator == d), "the parts of a Rational are not those given");
		double f = r.fraction(), back = f * d - (double) n;
		// a correctly rounded quotient times the denominator is this near
		vp_assert((back < 0.001) & (back > -0.001), "fraction() is not numerator/denominator");
		vp_cover(i ? "integer" : "fractional");
		break;
	}
	case 4: {
		static int const dens[4] = {1, 2, 1000, 1001};
		ll n1 = vp_range("numerator of a", 0, 0x7fffffff), n2 = vp_range("numerator of b", 0, 0x7fffffff);
		int d1 = dens[vp_choice("denominator of a", 4)], d2 = dens[vp_choice("denominator of b", 4)];
		Rational a ((int) n1, d1), b ((int) n2, d2);
		Rational m = max(a, b);
		int is_a = (m.numerator == n1) & (m.denominator == d1), is_b = (m.numerator == n2) & (m.denominator == d2);
		vp_assert(is_a | is_b, "max() is neither of its arguments");
		vp_assert(EITHER(n1 * d2 <= n2 * d1, is_a), "max() is not the larger");
		vp_assert(EITHER(n1 * d2 >= n2 * d1, is_b), "max() is not the larger");
		vp_assert((a == b) == ((n1 == n2) & (d1 == d2)), "== is not equality of the parts");
		vp_cover("end");
		break;
	}
	}
}
