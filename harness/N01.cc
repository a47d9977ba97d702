//@ src colour.cc exceptions.cc effect.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc util.cc vertical_position.cc subtitle.cc
//@ case 0 reading integers :: optional minus and 1..9 decimal digits, any digits, in 6 locales, alone or before a '.', ',' or space [quick=60]
//@ case 1 reading decimals :: optional minus, 3 symbolic digits split at any place by '.', with 0..2 further leading digits, in 6 locales [quick=100]
//@ case 2 writing unsigned long :: any value within 256 of 30 boundary values from 0 to 2^64-1, in 6 locales [quick=60]
//@ case 3 locale_convert of integers :: int, long, unsigned long, unsigned long long within 256 of 40 boundary values, in 6 locales; ints read back [quick=60]
//@ case 5 decimals of many places :: 10 forms with a symbolic digit, in 6 locales [quick=60]
//@ case 4 SSA numbers in any locale :: font size, position and colour of a dialogue with symbolic digits, in 6 locales [quick=100]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ assume locales are represented by their decimal point and thousands separator: C, "," with ".", "," with space, "," with none, U+066B with U+066C, and "." with ","
#include "common.h"
#include "raw_convert.h"
#include "locale_convert.h"
#include "ssa_reader.h"
using namespace sub;

static void locale ()
{
	switch (vp_choice("locale", 6)) {
	case 0: vp_set_locale(".", ""); break;
	case 1: vp_set_locale(",", "."); break;
	case 2: vp_set_locale(",", " "); break;
	case 3: vp_set_locale(",", ""); break;
	case 4: vp_set_locale("\xd9\xab", "\xd9\xac"); break;
	case 5: vp_set_locale(".", ","); break;
	}
}

static std::string decimal (unsigned long long v)
{
	// (v is concrete in its length: see below)
	std::string s;
	for (int i = 0; i < 20; ++i) { s.insert(s.begin(), (char) ('0' + v % 10)); v /= 10; }
	return s;
}
// is `got` the decimal form of v (given that many digits)
static int is_decimal (std::string const& got, unsigned long long v)
{
	std::string s = decimal(v);
	if (got.empty() || got.size() > 20) return 0;
	std::string tail = s.substr(20 - got.size());
	All all;
	all.add(vp_str_eq(got, tail));
	for (size_t i = 0; i < 20 - got.size(); ++i) all.add(s[i] == '0');
	if (got.size() > 1) all.add(got[0] != '0');
	return all.v;
}

static unsigned long long boundary (int i)
{
	// 0, powers of ten, powers of two around the ends of the types
	static unsigned long long const two[] = {1ull << 31, 1ull << 32, 1ull << 63, 1ull << 53, 1ull << 16};
	unsigned long long b = 0;
	if (i < 20) { b = 1; for (int k = 0; k < i; ++k) b *= 10; }
	else if (i < 25) b = two[i - 20];
	else if (i == 25) return ~0ull - 255;
	else if (i == 26) return 0;
	else if (i == 27) b = 1234567890;
	else if (i == 28) b = 999999999999ull;
	else b = 7777777777777777777ull;
	return b > 128 ? b - 128 : 0;
}

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		static char const* const tails[4] = {"", ".5", ",5", " x"};
		locale();
		bool neg = vp_choice("minus", 2);
		int n = 1 + vp_choice("digits", 9);
		std::string s = neg ? "-" : "";
		ll v = 0;
		for (int i = 0; i < n; ++i) { char c = vp_char("digit", "0123456789", 10); s += c; v = v * 10 + (c - '0'); }
		s += tails[vp_choice("tail", 4)];
		int got = raw_convert<int>(s);
		vp_assert(got == (neg ? -v : v), "an integer is not read at its value");
		vp_cover("end");
		break;
	}
	case 1: {
		locale();
		bool neg = vp_choice("minus", 2);
		std::string s = neg ? "-" : "", lead = std::string("71").substr(0, vp_choice("leading digits", 3));
		int point = vp_choice("decimal point", 5);	// before digit 0..3, or none
		if (point == 0 && lead.empty()) lead = "0";
		s += lead;
		ll v = lead == "71" ? 71 : lead == "7" ? 7 : 0, scale = 1;
		for (int i = 0; i < 3; ++i) {
			if (i == point) s += '.';
			char c = vp_char("digit", "0123456789", 10);
			s += c;
			v = v * 10 + (c - '0');
			if (point <= i) scale *= 10;
		}
		float got = raw_convert<float>(s);
		double want = (double) (neg ? -v : v) / scale, err = (double) got - want;
		double tol = 1e-6 + (double) v / scale * 1e-6;
		vp_assert((err <= tol) & (err >= -tol), "a decimal is not read at its value");
		vp_cover("end");
		break;
	}
	case 5: {
		// digits before the symbolic one, digits after it, value of what is fixed and weight of the digit
		static struct { char const* before; char const* after; double fixed, weight; } const forms[10] = {
			{"0.000", "", 0, 1e-4}, {"0.0000", "5", 5e-6, 1e-5}, {".00", "25", 25e-5, 1e-3}, {"12.3456", "", 12.3456, 1e-5}, {"-0.0001", "", -0.0001, -1e-5},
			{"12345.", "25", 12345.025, 0.1}, {"00", ".125", 0.125, 1}, {"72", ".", 720, 1}, {"0.99999", "", 0.99999, 1e-6}, {"-1", "0.0625", -100.0625, -10}
		};
		locale();
		int k = vp_choice("form", 10), d = (int) vp_concretize(vp_char("digit", "0123456789", 10)) - '0';
		float got = raw_convert<float>(std::string(forms[k].before) + (char) ('0' + d) + forms[k].after);
		double want = forms[k].fixed + d * forms[k].weight, err = got - want, tol = (want < 0 ? -want : want) * 2e-7 + 1e-12;
		vp_assert((err <= tol) & (err >= -tol), "a decimal of many places is not read at its value");
		vp_cover("end");
		break;
	}
	case 2: {
		locale();
		unsigned long v = boundary(vp_choice("near", 30)) + vp_range("offset", 0, 255);
		std::string s = raw_convert<std::string>(v);
		vp_assert(is_decimal(s, v), "a number is not written as its decimal digits");
		vp_observe_str(s);
		vp_cover("end");
		break;
	}
	case 3: {
		locale();
		int type = vp_choice("type", 4), neg = type < 2 ? vp_choice("negative", 2) : 0;
		unsigned long long u = boundary(vp_choice("near", 30)) + vp_range("offset", 0, 255);
		std::string s;
		if (type < 2) {
			ll limit = type == 0 ? 0x7fffffffll : 0x7fffffffffffffffll;
			vp_assume(u <= (unsigned long long) limit);
			// the minimum itself too: -limit-1 from offset u = limit
			ll x = neg ? -(ll) u - 1 : (ll) u;
			s = type == 0 ? locale_convert<std::string>((int) x) : locale_convert<std::string>((long) x);
			if (type == 0) vp_assert(locale_convert<int>(s) == x, "an integer does not survive being written and read");
			if (neg) {
				vp_assert(s.size() > 1 && s[0] == '-', "a negative number is not written with a minus");
				s = s.substr(1);
				u += 1;
			}
		} else if (type == 2) s = locale_convert<std::string>((unsigned long) u);
		else s = locale_convert<std::string>(u);
		vp_assert(is_decimal(s, u), "a number is not written as its decimal digits");
		vp_observe_str(s);
		vp_cover("end");
		break;
	}
	case 4: {
		locale();
		RawSubtitle base;
		char a = vp_char("digit", "123456789", 9), b = vp_char("digit", "0123456789", 10), c = vp_char("digit", "0123456789", 10);
		std::string fs = std::string("\\fs") + a + b + "." + c, pos = std::string("\\pos(") + b + a + "." + c + "," + a + "0." + b + c + ")";
		bool at = vp_choice("tag", 2);
		std::vector<RawSubtitle> r = SSAReader::parse_line(base, "{" + (at ? pos : fs) + "}text", SSAReader::Context(320, 240, Colour(1, 1, 1), 0, 0));
		vp_assert(r.size() == 1 && r[0].text == "text", "a dialogue's text is wrong");
		ll na = a - '0', nb = b - '0', nc = c - '0';
		if (at) {
			double x = (double) r[0].horizontal_position.proportional * 320 - (double) (nb * 100 + na * 10 + nc) / 10;
			vp_assert((x < 0.001) & (x > -0.001), "a position is not read at its value");
			vp_assert(bool (r[0].vertical_position.proportional), "a position is lost");
			double y = (double) r[0].vertical_position.proportional.get() * 240 - (double) (na * 1000 + nb * 10 + nc) / 100;
			vp_assert((y < 0.001) & (y > -0.001), "a position is not read at its value");
		} else {
			vp_assert(bool (r[0].font_size.proportional()), "a font size is lost");
			double x = (double) r[0].font_size.proportional().get() * 240 - (double) (na * 100 + nb * 10 + nc) / 10;
			vp_assert((x < 0.001) & (x > -0.001), "a font size is not read at its value");
		}
		vp_cover("end");
		break;
	}
	}
}
