//@ src sub_time.cc rational.cc exceptions.cc
//@ case 0 hours/minutes/seconds from from_hms and from_hmsf :: h 0..1000, m 0..59, s 0..59, any ms/frames [quick=30]
//@ case 1 from_frames :: frames 0..2^31-1 at 24, 25, 30, 50, 60, 120, 1000, 24000/1000 [quick=60]
//@ case 2 frames_at and milliseconds :: 12 source rates (incl. /1001 rates) x 10 target rates, any frames below the rate [quick=150]
//@ case 3 all_as_seconds :: 12 rates, 16 whole-second values from 0 to 2^25+1, any frames [quick=60]
//@ case 4 no rate raises :: frames_at, milliseconds, all_as_seconds [quick=20]
//@ case 5 printing :: each of h 0..130, m 0..59, s 0..59, frames 0..1199 symbolic with the others from 3 settings, with and without a rate [quick=60]
//@ case 6 any seconds total :: total seconds 0..2^31-1 [quick=30]
//@ case 7 frames_at between high rates :: 6 source rates up to 48 MHz x 12 target rates up to 96 MHz, a block of 250 frames at any of 8 places below the rate [quick=60]
//@ cover 0: hms, hmsf
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: throws
//@ cover 5: rate, no rate
//@ cover 6: end
//@ cover 7: end
//@ assume frames_at is rounding to nearest of a double quotient; a result one either side of an exact half is accepted within 1e-6 of the half
#include "common.h"
#include "sub_time.h"
#include "exceptions.h"
using namespace sub;

static int const nrates = 12;
static int const num[nrates] = {24, 25, 30, 50, 60, 1000, 24000, 30000, 60000, 23976, 1, 120};
static int const den[nrates] = {1, 1, 1, 1, 1, 1, 1001, 1001, 1001, 1000, 1, 1};

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		ll h = vp_range("h", 0, 1000), m = vp_range("m", 0, 59), s = vp_range("s", 0, 59), f = vp_range("f", 0, 999999);
		int how = vp_choice("constructor", 3);
		Time t = how == 0 ? Time::from_hms((int) h, (int) m, (int) s, (int) f) : how == 1 ? Time::from_hmsf((int) h, (int) m, (int) s, (int) f) : Time::from_hmsf((int) h, (int) m, (int) s, (int) f, Rational(25, 1));
		vp_assert(t.hours() == h, "hours() is not the hours given");
		vp_assert(t.minutes() == m, "minutes() is not the minutes given");
		vp_assert(t.seconds() == s, "seconds() is not the seconds given");
		if (how == 0) vp_assert(t.milliseconds() == f, "milliseconds() is not the milliseconds given");
		if (how == 2) vp_assert(t.frames_at(Rational(25, 1)) == f, "frames_at() the Time's own rate is not the frames given");
		vp_observe(t.hours()); vp_observe(t.minutes()); vp_observe(t.seconds());
		vp_cover(how ? "hmsf" : "hms");
		break;
	}
	case 1: {
		static int const n[8] = {24, 25, 30, 50, 60, 120, 1000, 24000}, d[8] = {1, 1, 1, 1, 1, 1, 1, 1000};
		int r = vp_choice("rate", 8);
		ll f = vp_range("frames", 0, 0x7fffffff);
		Time t = Time::from_frames((int) f, Rational(n[r], d[r]));
		ll rate = n[r] / d[r];
		ll total = (ll) t.hours() * 3600 + (ll) t.minutes() * 60 + t.seconds();
		vp_assert(total * rate <= f, "from_frames gives too many seconds");
		vp_assert(f < (total + 1) * rate, "from_frames gives too few seconds");
		vp_assert(t.frames_at(Rational(n[r], d[r])) == f - total * rate, "from_frames has the wrong remaining frames");
		vp_assert((t.minutes() >= 0) & (t.minutes() < 60) & (t.seconds() >= 0) & (t.seconds() < 60), "minutes or seconds out of range");
		vp_observe(total);
		vp_cover("end");
		break;
	}
	case 2: {
		int a = vp_choice("rate", nrates), b = vp_choice("target rate", 11);
		bool ms = b == 10;
		ll n = num[a], d = den[a], tn = ms ? 1000 : num[b], td = ms ? 1 : den[b];
		ll f = vp_range("frames", 0, (n - 1) / d);
		ll s = vp_range("seconds", 0, 86400);
		Time t = Time::from_hmsf(0, 0, (int) s, (int) f, Rational(n, d));
		ll g = ms ? t.milliseconds() : t.frames_at(Rational(tn, td));
		// exact: x = f * d * tn / (n * td); g is nearest: |2 x - 2 g| <= 1, with a little room for the quotient's rounding
		ll top = f * d * tn, bot = n * td;
		ll twice = 2 * top - 2 * g * bot;
		vp_assert((twice <= bot + bot / 1000000 + 0) & (twice >= -(bot + bot / 1000000)), "frames_at is not the fractional part at that rate, to the nearest frame");
		vp_observe(g);
		vp_cover("end");
		break;
	}
	case 3: {
		int a = vp_choice("rate", nrates);
		ll n = num[a], d = den[a];
		static int const secs[16] = {0, 1, 59, 60, 61, 3599, 3600, 4095, 8193, 65535, 86399, 86400, 100000, 262143, 359999, 33554433};
		ll s = secs[vp_choice("seconds", 16)], lo = 250 * vp_choice("block of frames", (int) ((n - 1) / d / 250 + 1));
		ll hi = lo + 249 < (n - 1) / d ? lo + 249 : (n - 1) / d;
		ll f = vp_range("frames", lo, hi);
		Time t = Time::from_hmsf(0, 0, (int) s, (int) f, Rational(n, d));
		double x = t.all_as_seconds();
		// in whole milliseconds, the double being within a microsecond of one
		ll y = (ll) (x * 1000 + 0.5);
		double off = x * 1000 - (double) y;
		vp_assert((off < 0.001) & (off > -0.001), "all_as_seconds is not a whole number of milliseconds");
		ll diff = (y - s * 1000) * n - f * d * 1000;
		vp_assert((diff <= n) & (diff >= -n), "all_as_seconds is not the instant to within a millisecond");
		vp_observe((uint64_t) (ll) (x * 100));
		vp_cover("end");
		break;
	}
	case 4: {
		int op = vp_choice("operation", 3);
		ll s = vp_range("seconds", 0, 1000000), f = vp_range("frames", 0, 1000000);
		Time t = Time::from_hmsf(0, 0, (int) s, (int) f);
		try {
			if (op == 0) (void) t.frames_at(Rational(25, 1));
			else if (op == 1) (void) t.milliseconds();
			else (void) t.all_as_seconds();
		} catch (UnknownFrameRateError&) {
			vp_cover("throws");
			return;
		}
		vp_fail("a conversion that needs the frame rate did not raise UnknownFrameRateError");
		break;
	}
	case 5: {
		// one field symbolic, the others from a few values
		int which = vp_choice("symbolic field", 4);
		static int const some[4][3] = {{0, 9, 101}, {0, 7, 59}, {0, 10, 59}, {0, 23, 1001}};
		int rest = vp_choice("other fields", 3);
		ll h = which == 0 ? vp_range("h", 0, 130) : some[0][rest], m = which == 1 ? vp_range("m", 0, 59) : some[1][rest], s = which == 2 ? vp_range("s", 0, 59) : some[2][rest], f = which == 3 ? vp_range("f", 0, 1199) : some[3][rest];
		bool rate = vp_choice("rate", 2);
		std::ostringstream o;
		if (vp_choice("stream state", 2)) o << "x";
		size_t pre = o.str().size();
		o << Time::from_hmsf((int) h, (int) m, (int) s, (int) f, rate ? boost::optional<Rational>(Rational(30000, 1001)) : boost::optional<Rational>());
		std::string got = o.str().substr(pre);
		int hw = h >= 100 ? 3 : 2, fw = f >= 1000 ? 4 : f >= 100 ? 3 : f >= 10 ? 2 : 1;
		std::string want = digits(h, hw) + ":" + digits(m, 2) + ":" + digits(s, 2) + ":" + digits(f, fw);
		if (rate) want += " @ 30000/1001";
		vp_assert(vp_str_eq(got, want), "a Time is not printed as hh:mm:ss:frames [@ rate]");
		vp_observe_str(got);
		vp_cover(rate ? "rate" : "no rate");
		break;
	}
	case 6: {
		ll s = vp_range("seconds", 0, 0x7fffffff);
		Time t = Time::from_hmsf(0, 0, (int) s, 0);
		vp_assert((ll) t.hours() * 3600 + (ll) t.minutes() * 60 + t.seconds() == s, "hours, minutes and seconds do not add up to the time");
		vp_assert((t.minutes() >= 0) & (t.minutes() < 60) & (t.seconds() >= 0) & (t.seconds() < 60), "minutes or seconds out of range");
		vp_observe(t.hours());
		vp_cover("end");
		break;
	}
	case 7: {
		static int const n[6] = {16000, 44100, 90000, 96000, 1000000, 48000000}, tn[12] = {24, 25, 30000, 1000, 44100, 48000, 90000, 192000, 1000000, 27000000, 48000000, 96000000};
		int a = vp_choice("rate", 6), b = vp_choice("target rate", 12);
		ll lo = (n[a] - 250) / 7 * (ll) vp_choice("place", 8), f = vp_range("frames", lo, lo + 249);
		ll td = tn[b] == 30000 ? 1001 : 1;
		ll g = Time::from_hmsf(1, 2, 3, (int) f, Rational(n[a], 1)).frames_at(Rational(tn[b], (int) td));
		ll bot = n[a] * td, twice = 2 * f * tn[b] - 2 * g * bot;
		vp_assert((twice <= bot + bot / 1000000) & (twice >= -(bot + bot / 1000000)), "frames_at is not the fractional part at that rate, to the nearest frame");
		vp_observe(g);
		vp_cover("end");
		break;
	}
	}
}
