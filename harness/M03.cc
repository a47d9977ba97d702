//@ src sub_time.cc rational.cc exceptions.cc
//@ case 0 add, both in milliseconds :: any milliseconds plus one of 12 values, whole seconds from 4 values each [quick=100]
//@ case 1 add, any pair of 8 integer rates :: one operand's frames symbolic, the other's from 5 values, whole seconds from 5 values each [quick=100]
//@ case 2 scale by factors from a list of 14 :: 8 integer rates, whole seconds from 8 values, any frames [quick=100]
//@ case 3 scale by any factor in milliseconds :: factors k/64 and k/4096 in 4 blocks of 256 values of k, milliseconds from 6 values, whole seconds from 8 [quick=60]
//@ case 4 missing or fractional rates raise :: 8 combinations, any time [quick=30]
//@ case 5 rates written as fractions :: every pair of 25/1, 50/2, 48/1, 30000/1000, 96/2 and 24000/1000 and scaling at them, any frames, whole seconds from 3 values [quick=60]
//@ case 6 the rate of a sum :: every pair of 8 integer rates, whole seconds and halves [quick=30]
//@ cover 0: exact
//@ cover 1: whole milliseconds, end
//@ cover 2: end, carry
//@ cover 3: end
//@ cover 4: throws
//@ cover 5: end
//@ cover 6: end
//@ assume instants are taken to the nearest millisecond before add and scale, as all_as_seconds() gives them
#include "common.h"
#include "sub_time.h"
#include "exceptions.h"
#include <sstream>
using namespace sub;

static int const nrates = 8;
static int const rates[nrates] = {24, 25, 30, 50, 60, 120, 200, 1000};

static ll seconds (Time const& t) { return (ll) t.hours() * 3600 + (ll) t.minutes() * 60 + t.seconds(); }

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		static int const secs[4] = {0, 1, 3599, 86399};
		static int const some[12] = {0, 1, 9, 10, 100, 208, 333, 499, 500, 501, 998, 999};
		ll s1 = secs[vp_choice("seconds of a", 4)], s2 = secs[vp_choice("seconds of b", 4)], f2 = some[vp_choice("milliseconds of b", 12)];
		ll lo = 250 * vp_choice("block of milliseconds", 4), f1 = vp_range("milliseconds of a", lo, lo + 249);
		Time a = Time::from_hms(0, 0, (int) s1, (int) f1), b = Time::from_hms(0, 0, (int) s2, (int) f2);
		a.add(b);
		ll ms = a.frames_at(Rational(1000, 1));
		ll whole = seconds(a);
		vp_assert((ms >= 0) & (ms < 1000), "the sum has a whole second or more of frames");
		vp_assert(whole * 1000 + ms == (s1 + s2) * 1000 + f1 + f2, "the sum of two times in milliseconds is not exact");
		vp_observe(whole); vp_observe(ms);
		vp_cover("exact");
		break;
	}
	case 1: {
		static int const secs[5] = {0, 1, 59, 3599, 86399};
		int r1 = vp_choice("rate of a", nrates), r2 = vp_choice("rate of b", nrates);
		ll n1 = rates[r1], n2 = rates[r2];
		ll s1 = secs[vp_choice("seconds of a", 5)], s2 = secs[vp_choice("seconds of b", vp_tier() ? 5 : 2) * (vp_tier() ? 1 : 3)];
		ll lo = 250 * vp_choice("block of frames", (int) ((n1 - 1) / 250 + 1));
		ll f1 = vp_range("frames of a", lo, lo + 249 < n1 - 1 ? lo + 249 : n1 - 1);
		ll const f2s[5] = {0, 1, n2 / 2, n2 / 3, n2 - 1};
		ll f2 = f2s[vp_choice("frames of b", 5)];
		Time a = Time::from_hmsf(0, 0, (int) s1, (int) f1, Rational(n1, 1)), b = Time::from_hmsf(0, 0, (int) s2, (int) f2, Rational(n2, 1));
		Time c = a, d = b;
		c.add(b);
		d.add(a);
		ll n = n1 > n2 ? n1 : n2;
		ll fr = c.frames_at(Rational(n, 1)), total = seconds(c) * n + fr;
		vp_assert((fr >= 0) & (fr < n), "the sum has a whole second or more of frames");
		// in units of 1/(n1 n2 n) second
		ll exact = ((s1 + s2) * n1 * n2 + f1 * n2 + f2 * n1) * n, got = total * n1 * n2, unit = n1 * n2 * n;
		ll err = 2000 * (got - exact);
		// half a frame, and a millisecond for the two roundings to a millisecond
		vp_assert((err <= 1000 * n1 * n2 + 2 * unit) & (err >= -(1000 * n1 * n2 + 2 * unit)), "the sum is not the nearest instant to the exact sum");
		int whole = (f1 * 1000 % n1 == 0) & (f2 * 1000 % n2 == 0);
		vp_assert(EITHER(!whole, BOTH(err <= 1000 * n1 * n2, err >= -1000 * n1 * n2)), "the sum of two whole numbers of milliseconds is not the nearest frame");
		vp_assert(d.frames_at(Rational(n, 1)) == fr && seconds(d) == seconds(c), "a + b and b + a differ");
		vp_observe(total);
		if (!vp_is_sym(whole) && whole) vp_cover("whole milliseconds");
		vp_cover("end");
		break;
	}
	case 2: case 3: {
		static float const fs[14] = {0, 0.5f, 1, 2, 24.0f / 25, 25.0f / 24, 0.999f, 1.001f, 24 * 1001 / 24000.0f, 23.976f / 24, 25 / 23.976f, 0.1f, 1.25f, 30.0f / 25};
		static int const secs[8] = {0, 1, 9, 59, 60, 3599, 86399, 359999};
		ll s = secs[vp_choice("seconds", 8)], f, n;
		float k;
		if (vp_case() == 2) {
			n = rates[vp_choice("rate", nrates)];
			ll lo = 250 * vp_choice("block of frames", (int) ((n - 1) / 250 + 1));
			f = vp_range("frames", lo, lo + 249 < n - 1 ? lo + 249 : n - 1);
			k = fs[vp_choice("factor", 14)];
		} else {
			static int const some[6] = {0, 1, 333, 499, 500, 999};
			n = 1000;
			f = some[vp_choice("milliseconds", 6)];
			static int const base[5] = {0, 0, 1900, 3900, 8100};
			int block = vp_choice("block of factors", 5);
			k = block == 0 ? (float) vp_range("factor*64", 0, 255) / 64 : (float) (vp_range("factor*4096", 0, 255) + base[block]) / 4096;
		}
		Time t = Time::from_hmsf(0, 0, (int) s, (int) f, Rational(n, 1));
		t.scale(k);
		ll fr = t.frames_at(Rational(n, 1));
		vp_assert((fr >= 0) & (fr < n), "the scaled time has a whole second or more of frames");
		ll total = seconds(t) * n + fr;
		// milliseconds of the instant, to the nearest
		ll ms = s * 1000 + (2000 * f + n) / (2 * n);
		double want = (double) ms * (double) k * (double) n / 1000, off = (double) total - want;
		vp_assert((off <= 0.50001) & (off >= -0.50001), "scale does not give the nearest frame of the original rate");
		vp_observe(total);
		vp_cover("end");
		if (f > 1 && k == 1.25f) vp_cover("carry");
		break;
	}
	case 4: {
		ll s = vp_range("seconds", 0, 86399), f = vp_range("frames", 0, 23);
		int op = vp_choice("operation", 8);
		Time none = Time::from_hmsf(0, 0, (int) s, (int) f), frac = Time::from_hmsf(0, 0, (int) s, (int) f, Rational(24000, 1001)), ok = Time::from_hmsf(0, 0, (int) s, 3, Rational(20, 1));
		try {
			switch (op) {
			case 0: none.add(ok); break;
			case 1: ok.add(none); break;
			case 2: none.add(none); break;
			case 3: none.scale(2); break;
			case 4: frac.scale(2); break;
			case 5: frac.add(ok); break;
			case 6: ok.add(frac); break;
			case 7: frac.add(frac); break;
			}
		} catch (std::exception&) {
			vp_cover("throws");
			return;
		}
		vp_fail("arithmetic without a usable rate did not raise an exception");
	}
	case 5: {
		static int const num[6] = {25, 50, 48, 30000, 96, 24000}, den[6] = {1, 2, 1, 1000, 2, 1000}, secs[3] = {0, 1, 3599};
		int r1 = vp_choice("rate of a", 6), r2 = vp_choice("rate of b", 7);
		ll n1 = num[r1] / den[r1], s1 = secs[vp_choice("seconds of a", 3)], f1 = vp_range("frames of a", 0, n1 - 1);
		Time a = Time::from_hmsf(0, 0, (int) s1, (int) f1, Rational(num[r1], den[r1]));
		if (r2 == 6) {
			a.scale(1.5f);
			// the instant to the millisecond; either if it is half way between two
			ll ms = s1 * 1000 + (2000 * f1 + n1) / (2 * n1), fr = a.frames_at(Rational((int) n1, 1)), half = (2000 * f1 + n1) % (2 * n1) == 0;
			double off = (double) (seconds(a) * n1 + fr) - (double) ms * 1.5 * (double) n1 / 1000;
			if (vp_ite(half, off < -0.5, 0)) off = off + 1.5 * (double) n1 / 1000;
			vp_assert((fr >= 0) & (fr < n1), "the scaled time has a whole second or more of frames");
			vp_assert((off <= 0.50001) & (off >= -0.50001), "scale does not give the nearest frame of the original rate");
		} else {
			ll n2 = num[r2] / den[r2], f2 = n2 - 1 - vp_choice("frames of b", 3) * (n2 / 2 - 1), n = n1 > n2 ? n1 : n2;
			a.add(Time::from_hmsf(0, 0, 1, (int) f2, Rational(num[r2], den[r2])));
			ll fr = a.frames_at(Rational((int) n, 1)), total = seconds(a) * n + fr;
			vp_assert((fr >= 0) & (fr < n), "the sum has a whole second or more of frames");
			ll err = 2000 * (total * n1 * n2 - ((s1 + 1) * n1 * n2 + f1 * n2 + f2 * n1) * n), unit = n1 * n2 * n;
			vp_assert((err <= 1000 * n1 * n2 + 2 * unit) & (err >= -(1000 * n1 * n2 + 2 * unit)), "the sum is not the nearest instant to the exact sum");
			// a time at the faster rate is a whole number of its frames
			vp_observe(total);
		}
		vp_cover("end");
		break;
	}
	case 6: {
		// the rate of the sum, as printed
		int r1 = vp_choice("rate of a", nrates), r2 = vp_choice("rate of b", nrates), ends = vp_choice("frames", 4);
		Time a = Time::from_hmsf(0, 0, 1, ends & 1 ? rates[r1] / 2 : 0, Rational(rates[r1], 1)), b = Time::from_hmsf(0, 0, vp_choice("seconds of b", 2), ends & 2 ? rates[r2] / 2 : 0, Rational(rates[r2], 1));
		a.add(b);
		std::ostringstream s, w;
		s << a;
		w << " @ " << rates[std::max(r1, r2)] << "/1";
		std::string t = s.str(), u = w.str();
		vp_assert(t.size() >= u.size() && t.substr(t.size() - u.size()) == u, "the sum is not at the faster of the two rates");
		vp_observe_str(t);
		vp_cover("end");
		break;
	}
	}
}
