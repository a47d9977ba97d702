//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc web_vtt_reader.cc effect.cc
//@ case 0 well-formed times :: hours of 1..6 digits, minutes and seconds of 1..5, milliseconds of 1..6 (leading zeros included), one field of four taking any of 1000 values [quick=100]
//@ case 1 two bytes changed :: 00:01:02,003 and 9:8:7.6 with any two bytes replaced by any bytes [quick=200]
//@ case 2 a byte inserted or deleted :: the same with one byte inserted anywhere or one deleted, and one other byte replaced by any [quick=150]
//@ case 3 short strings :: strings of 0..6 characters (7 in thorough) over 0 9 : , . - space [quick=100]
//@ case 4 SubRip time lines :: one byte of the time line replaced by any; 1..3 spaces around the arrow, 0..1 after the times, an arrow of 5 kinds, or coordinates [quick=150]
//@ case 5 WebVTT time lines :: likewise [quick=150]
//@ case 6 field widths :: a field of up to 12 digits; refused exactly when its value does not fit an int [quick=60]
//@ cover 0: end
//@ cover 1: read, refused
//@ cover 2: read, refused
//@ cover 3: refused
//@ cover 4: read, refused
//@ cover 5: read, refused
//@ cover 6: read, refused
//@ assume a field with a sign is either refused or read at its signed value; totals fit in 31 bits
#include "common.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "exceptions.h"
using namespace sub;

struct Ref { bool ok; bool sign; ll total, ms; };

// what the time ought to be; branches on the characters
static Ref reference (std::string const& t, char sep)
{
	Ref r = {false, false, 0, 0};
	ll v[4];
	size_t p = 0;
	for (int f = 0; f < 4; ++f) {
		char end = f < 2 ? ':' : sep;
		bool neg = false;
		if (p < t.size() && (t[p] == '-' || t[p] == '+')) { neg = t[p] == '-'; r.sign = true; ++p; }
		size_t start = p;
		v[f] = 0;
		while (p < t.size() && t[p] >= '0' && t[p] <= '9') { if (p - start < 15) v[f] = v[f] * 10 + (t[p] - '0'); ++p; }
		if (p == start) return r;
		if (neg) v[f] = -v[f];
		if (v[f] > 0x7fffffffll || v[f] < -0x80000000ll) return r;
		if (f < 3) { if (p >= t.size() || t[p] != end) return r; ++p; }
		else if (p != t.size()) return r;
	}
	r.ok = true;
	r.total = v[0] * 3600 + v[1] * 60 + v[2];
	r.ms = v[3];
	return r;
}

static int is (Time const& t, ll total, ll ms)
{
	return BOTH((ll) t.hours() * 3600 + t.minutes() * 60 + t.seconds() == total, t.milliseconds() == ms);
}

static void check (std::string const& t, char sep)
{
	std::string expected;
	boost::optional<Time> got = SubripReader::convert_time(t, std::string(1, sep), &expected);
	Ref r = reference(t, sep);
	if (got) {
		vp_assert(r.ok, "a malformed time is read");
		if (r.ok && !r.sign) vp_assert(is(got.get(), r.total, r.ms), "a time is read at the wrong value");
		vp_cover("read");
	} else {
		vp_assert(!r.ok || r.sign, "a well-formed time is refused");
		vp_assert(!expected.empty(), "a refusal does not say what was expected");
		vp_cover("refused");
	}
	vp_observe(bool(got));
}

// a field of the given width whose value is block * 250 + (0..249)
static std::string field (char const* name, int width, bool free, ll fixed, ll& v)
{
	if (free) {
		ll lim = 1;
		for (int i = 0; i < width && i < 3; ++i) lim *= 10;
		ll block = lim > 250 ? vp_choice("block", 4) : 0;
		v = block * 250 + vp_range(name, 0, (lim > 250 ? 250 : lim) - 1);
	} else v = fixed;
	std::string d = digits(v, width < 3 ? width : 3);
	// longer: leading zeros
	return std::string(width > 3 ? width - 3 : 0, '0') + d;
}

extern "C" void vp_harness ()
{
	static char const* const base[2] = {"00:01:02,003", "9:8:7.6"};
	static char const seps[2] = {',', '.'};
	switch (vp_case()) {
	case 0: {
		static int const hw[5] = {1, 2, 3, 4, 6};
		static int const mw[4] = {1, 2, 3, 5};
		int k = vp_choice("separator", 2), free = vp_choice("symbolic field", 4);
		ll h, m, s, ms;
		std::string t = field("hours", hw[vp_choice("width of hours", 5)], free == 0, 7, h) + ":";
		t += field("minutes", mw[vp_choice("width of minutes", 4)], free == 1, 8, m) + ":";
		t += field("seconds", mw[vp_choice("width of seconds", 4)], free == 2, 9, s) + seps[k];
		t += field("milliseconds", hw[vp_choice("width of milliseconds", 5)], free == 3, 6, ms);
		boost::optional<Time> got = SubripReader::convert_time(t, std::string(1, seps[k]));
		vp_assert(bool(got), "a well-formed time is refused");
		vp_assert(is(got.get(), h * 3600 + m * 60 + s, ms), "a time is read at the wrong value");
		vp_cover("end");
		break;
	}
	case 1: {
		int k = vp_choice("form", 2);
		std::string t = base[k];
		int a = vp_choice("position", (int) t.size()), b = vp_choice("other position", (int) t.size());
		if (a <= b && a + b) vp_stop();
		t[a] = (char) vp_byte("byte");
		if (a != b) t[b] = (char) vp_byte("other byte");
		check(t, seps[k]);
		break;
	}
	case 2: {
		int k = vp_choice("form", 2);
		std::string t = base[k];
		int a = vp_choice("position", (int) t.size());
		if (vp_choice("insert", 2)) t.insert(t.begin() + a, (char) vp_byte("inserted"));
		else t.erase(t.begin() + a);
		t[vp_choice("other position", (int) t.size())] = (char) vp_byte("byte");
		check(t, seps[k]);
		break;
	}
	case 3: {
		int n = vp_choice("length", vp_tier() ? 8 : 7);
		std::string t;
		for (int i = 0; i < n; ++i) t += vp_char("character", "09:,.- ", 7);
		check(t, seps[vp_choice("separator", 2)]);
		break;
	}
	case 4: case 5: {
		bool vtt = vp_case() == 5;
		static char const* const arrows[5] = {"-->", "->", "--->>", "x", "-->"};
		std::string a = vtt ? "00:01:02.003" : "00:01:02,003", b = vtt ? "1:02:03.4" : "1:02:03,4";
		int arrow = vp_choice("arrow", vtt ? 1 : 5);
		std::string mid = std::string(1 + vp_choice("spaces before", 3), ' ') + arrows[arrow] + std::string(1 + vp_choice("spaces after", 3), ' ');
		std::string end = vp_choice("trailing space", 2) ? " " : "";
		if (arrow == 4 || (vtt && end == "" && mid.size() == 5 && vp_choice("settings", 2))) end = " X1:1 X2:2 Y1:3 Y2:4" + end;
		int at = vp_choice("position", (int) (a.size() + b.size()));
		char c = (char) vp_byte("byte");
		// a line feed or carriage return would end the line, a space the word
		vp_assume((c != '\n') & (c != '\r') & (c != ' '));
		if (at < (int) a.size()) a[at] = c; else b[at - a.size()] = c;
		std::string line = a + mid + b + end, doc = vtt ? "WEBVTT\n\n" + line + "\ntext\n" : "1\n" + line + "\ntext\n";
		bool threw = false;
		std::vector<RawSubtitle> subs;
		try {
			if (vtt) subs = WebVTTReader(doc).subtitles(); else subs = SubripReader(doc).subtitles();
		} catch (SubripError& e) {
			vp_assert(!vtt, "the wrong kind of exception");
			threw = true;
		} catch (WebVTTError& e) {
			vp_assert(vtt, "the wrong kind of exception");
			threw = true;
		}
		Ref ra = reference(a, vtt ? '.' : ','), rb = reference(b, vtt ? '.' : ',');
		if (threw) {
			vp_assert(!ra.ok || !rb.ok || ra.sign || rb.sign, "a well-formed time line is refused");
			vp_cover("refused");
		} else {
			vp_assert(ra.ok && rb.ok, "a malformed time line is read");
			vp_assert(subs.size() == 1 && subs[0].text == "text", "the cue is wrong");
			if (!ra.sign && !rb.sign && subs.size() == 1) {
				vp_assert(is(subs[0].from, ra.total, ra.ms), "a start time is read at the wrong value");
				vp_assert(is(subs[0].to, rb.total, rb.ms), "an end time is read at the wrong value");
			}
			vp_cover("read");
		}
		break;
	}
	case 6: {
		int which = vp_choice("field", 4), n = 9 + vp_choice("digits", 4);
		static char const* const lead[5] = {"000", "214", "299", "429", "999"};
		std::string f = lead[vp_choice("leading digits", 5)];
		ll v = 0;
		while ((int) f.size() < n - 2) f += f.size() % 2 ? '7' : '8';
		f += digits(vp_range("last digits", 0, 99), 2);
		for (size_t i = 0; i < f.size(); ++i) v = v * 10 + (f[i] - '0');
		std::string t = which == 0 ? f + ":0:0,0" : which == 1 ? "0:" + f + ":0,0" : which == 2 ? "0:0:" + f + ",0" : "0:0:0," + f;
		boost::optional<Time> got = SubripReader::convert_time(t, ",");
		if (!got) {
			vp_assert(v > 0x7fffffffll, "a time that can be represented is refused");
			vp_cover("refused");
		} else {
			vp_assert(v <= 0x7fffffffll, "a field that does not fit an int is read");
			// (totals beyond 31 bits are outside the property)
			if (which >= 2) vp_assert((ll) got->hours() * 3600 + got->minutes() * 60 + got->seconds() == (which == 2 ? v : 0), "a time is read at the wrong value");
			vp_cover("read");
		}
		break;
	}
	}
}
