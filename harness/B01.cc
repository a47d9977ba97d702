//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc iso6937.cc iso6937_tables.cc rational.cc raw_subtitle.cc reader.cc stl_binary_reader.cc stl_binary_tables.cc stl_util.cc sub_time.cc subtitle.cc util.cc vertical_position.cc
//@ case 0 control codes :: a text field of 5 codes (6 in the thorough tier) out of a letter, new line, two colours and the four styles, after and before letters, and a further block [quick=200]
//@ case 1 every colour and style code :: one byte any of the 256 after a letter at 6 places of the field, the field full or not [quick=100]
//@ case 2 times :: each of the 8 bytes of the in and out times any byte, at each of the 4 frame rates [quick=100]
//@ case 3 positions :: vertical position any byte, 1..4 rows, maximum of rows any of 01..99, two blocks [quick=150]
//@ case 4 justification, comments and unused fields :: each of them any byte [quick=100]
//@ case 5 several blocks :: 4 blocks, each a comment or not, each leaving italic, underline or colour on, with 3 kinds of text, and 3 with unused space in a row before the last [quick=150]
//@ case 6 long files :: 300 or 1100 blocks with one byte any [quick=60]
//@ case 7 fields together :: 3 blocks of each cumulative status, each leaving italic, underline and colour on or not, subtitle and group numbers the same or not, with each display standard, character code table and time code status [quick=60]
//@ cover 0: rows, styles
//@ cover 1: end
//@ cover 2: end
//@ cover 3: moved, not moved
//@ cover 4: read, comment, refused
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ assume the filler 8Fh is followed only by filler in its row, blocks are not extension or user-data blocks, the last row of a block has text, a row's codes 08h-1Fh and 84h-9Fh other than 8Ah and 8Fh are not examined
#include "stl.h"
#include "stl_binary_reader.h"
#include "exceptions.h"
#include "iso6937_oracle.h"
#include <boost/locale.hpp>
using namespace sub;

// one character of the expected output
struct Ch { std::string c; int row, italic, underline, colour, block; };

static int about (double a, double b, double eps = 1e-6) { return (a - b < eps) & (b - a < eps); }

static std::vector<RawSubtitle> parse (std::string const& f)
{
	std::istringstream s (f);
	return STLBinaryReader(s).subtitles();
}

static std::string utf8 (wchar_t w)
{
	std::string o;
	if (w < 0x80) o += (char) w;
	else if (w < 0x800) { o += (char) (0xc0 | (w >> 6)); o += (char) (0x80 | (w & 0x3f)); }
	else { o += (char) (0xe0 | (w >> 12)); o += (char) (0x80 | ((w >> 6) & 0x3f)); o += (char) (0x80 | (w & 0x3f)); }
	return o;
}

static void colour_of (int c, double* v)
{
	// black red green yellow blue magenta cyan white: bits 0, 1, 2 are red, green, blue
	for (int i = 0; i < 3; ++i) v[i] = (c >> i) & 1;
}

// the characters of a block whose text bytes are concrete
static void expand (std::string const& text, int block, std::vector<Ch>& out)
{
	int row = 0, it = 0, un = 0, col = 7;
	for (size_t i = 0; i < text.size(); ++i) {
		int b = (unsigned char) text[i];
		if (b == 0x8f) {
			// the rest of the row is unused
			while (i + 1 < text.size() && (unsigned char) text[i + 1] != 0x8a) ++i;
		}
		else if (b == 0x8a) { ++row; col = 7; }
		else if (b <= 7) col = b;
		else if (b == 0x80 || b == 0x81) it = b == 0x80;
		else if (b == 0x82 || b == 0x83) un = b == 0x82;
		else {
			std::string bytes (1, (char) b);
			if (b >= 0xc1 && b <= 0xcf && i + 1 < text.size()) bytes += text[++i];
			std::wstring w = iso_oracle::decode(bytes);
			for (size_t j = 0; j < w.size(); ++j) { Ch c = {utf8(w[j]), row, it, un, col, block}; out.push_back(c); }
		}
	}
}

// group the runs and compare characters, rows and styles; the blocks' characters are distinguished by their times
static void check (std::vector<RawSubtitle> const& got, std::vector<Ch> const& want, std::vector<Tti> const& t, ll rate, int rows, ll shift)
{
	size_t k = 0;
	All text, style, colour, place, time, just;
	for (size_t i = 0; i < got.size(); ++i) {
		RawSubtitle const& g = got[i];
		if (g.text.empty()) continue;
		size_t p = 0;
		int first = -1;
		while (p < g.text.size()) {
			if (k == want.size()) vp_fail("there is text which is not in the file");
			Ch const& w = want[k++];
			if (first >= 0) { vp_assert(w.block == first, "a run mixes two blocks"); }
			first = w.block;
			if (w.c.size() > g.text.size() - p) vp_fail("a row has the wrong characters");
			text.add(vp_mem_eq(w.c.data(), g.text.data() + p, w.c.size()));
			p += w.c.size();
			style.add(((int) g.italic == w.italic) & ((int) g.underline == w.underline) & !g.bold);
			double c[3];
			colour_of(w.colour, c);
			colour.add((g.colour.r == c[0]) & (g.colour.g == c[1]) & (g.colour.b == c[2]));
			Tti const& b = t[w.block];
			place.add(bool(g.vertical_position.line) && g.vertical_position.lines && !g.vertical_position.proportional && g.vertical_position.reference && g.vertical_position.reference.get() == TOP_OF_SCREEN);
			if (g.vertical_position.line && g.vertical_position.lines) {
				place.add(BOTH(g.vertical_position.line.get() == (ll) b.vp + w.row - shift, g.vertical_position.lines.get() == rows));
			}
			just.add(g.horizontal_position.reference == (b.jc == 1 ? LEFT_OF_SCREEN : b.jc == 3 ? RIGHT_OF_SCREEN : HORIZONTAL_CENTRE_OF_SCREEN));
			Rational const r ((int) rate, 1);
			if (rate != 23) {
				time.add(BOTH(g.from == Time::from_hmsf(b.from[0], b.from[1], b.from[2], b.from[3], r), g.to == Time::from_hmsf(b.to[0], b.to[1], b.to[2], b.to[3], r)));
			} else {
				time.add(about(g.from.all_as_seconds(), b.from[0] * 3600 + b.from[1] * 60 + b.from[2] + b.from[3] / 23.976, 2e-3));
				time.add(about(g.to.all_as_seconds(), b.to[0] * 3600 + b.to[1] * 60 + b.to[2] + b.to[3] / 23.976, 2e-3));
			}
		}
		vp_observe_str(g.text);
		vp_observe(g.italic * 2 + g.underline);
		if (g.vertical_position.line) vp_observe(g.vertical_position.line.get());
		vp_observe(g.from.hours()); vp_observe(g.to.seconds());
	}
	vp_assert(k == want.size(), "text of the file is missing");
	vp_assert(text.v, "a row has the wrong characters");
	vp_assert(style.v, "italic or underline is wrong");
	vp_assert(colour.v, "the colour is wrong");
	vp_assert(place.v, "the vertical position is wrong");
	vp_assert(just.v, "the justification is wrong");
	vp_assert(time.v, "a time is wrong");
}

static std::string file (std::vector<Tti> const& t, char const* dfc = "STL25.01", std::string mnr = "23")
{
	std::string f = stl_gsi((int) t.size(), dfc, mnr);
	for (size_t i = 0; i < t.size(); ++i) f += t[i].bytes();
	return f;
}

extern "C" void vp_harness ()
{
	std::vector<Tti> t;
	std::vector<Ch> want;
	Tti a;
	a.vp = 10;
	switch (vp_case()) {
	case 0: {
		std::string x = "p";
		for (int i = 0; i < (vp_tier() ? 6 : 5); ++i) x += (char) vp_char("code", "a\x8a\x01\x06\x80\x81\x82\x83", 8);
		x += "q";
		a.text = x;
		t.push_back(a);
		Tti b;
		b.vp = 12;
		b.text = "next\x8arow";
		t.push_back(b);
		std::vector<RawSubtitle> got = parse(file(t));
		std::string y;
		bool rows = false, styles = false;
		for (size_t i = 0; i < x.size(); ++i) {
			int c = (int) vp_concretize((unsigned char) x[i]);
			y += (char) c;
			if (c == 0x8a) rows = true;
			if (c >= 0x80 && c <= 0x83) styles = true;
		}
		expand(y, 0, want);
		expand(b.text, 1, want);
		check(got, want, t, 25, 23, 0);
		if (rows) vp_cover("rows");
		if (styles) vp_cover("styles");
		break;
	}
	case 1: {
		static int const at[6] = {0, 1, 5, 55, 110, 111};
		int place = at[vp_choice("place", 6)], full = vp_choice("full", 2);
		std::string x (full ? 112 : place + 1, 'a');
		for (size_t i = 0; i < x.size(); ++i) x[i] = (char) ('a' + i % 26);
		x[place] = (char) vp_byte("code");
		int c = (unsigned char) x[place];
		vp_assume(!((c >= 0x08) & (c <= 0x1f)) & !((c >= 0x84) & (c <= 0x9f) & (c != 0x8a) & (c != 0x8f)));
		a.text = x;
		if (place == 0 && !full) a.vp = 22;
		t.push_back(a);
		std::vector<RawSubtitle> got = parse(file(t));
		c = (int) vp_concretize(c);
		if (c == 0x8f && full) vp_stop();
		if (c == 0x8a && place == (int) x.size() - 1) vp_stop();
		x[place] = (char) c;
		// 112 rows do not fit, but one more row does
		expand(x, 0, want);
		check(got, want, t, 25, 23, 0);
		vp_cover("end");
		break;
	}
	case 2: {
		static char const* dfc[4] = {"STL23.01", "STL24.01", "STL25.01", "STL30.01"};
		static ll const rate[4] = {23, 24, 25, 30};
		int r = vp_choice("rate", 4), f = vp_choice("field", 8), v = vp_byte("value");
		(f < 4 ? a.from[f] : a.to[f - 4]) = v;
		a.text = "ab\x8a" "cd";
		t.push_back(a);
		expand(a.text, 0, want);
		check(parse(file(t, dfc[r])), want, t, rate[r], 23, 0);
		vp_cover("end");
		break;
	}
	case 3: {
		int rows = vp_choice("rows", 4), dig = vp_choice("maximum", 7);
		static int const mnr[7] = {1, 11, 12, 23, 45, 99, 0};
		int m = dig < 6 ? mnr[dig] : (int) vp_range("any maximum", 1, 99);
		if (dig < 6) a.vp = vp_byte("position");
		else { static int const vp[4] = {0, 20, 90, 255}; a.vp = vp[vp_choice("position", 4)]; }
		Tti b;
		b.vp = vp_choice("other position", 3) * 14;
		for (int i = 0; i <= rows; ++i) a.text += std::string(i ? "\x8a" : "") + "ab";
		b.text = "cd\x8a" "ef";
		b.from[0] = 5;
		if (vp_choice("order", 2)) { t.push_back(a); t.push_back(b); } else { t.push_back(b); t.push_back(a); }
		expand(t[0].text, 0, want);
		expand(t[1].text, 1, want);
		int max = (int) vp_ite(m == 99, 12, m);
		ll lowest = vp_ite(a.vp + rows > b.vp + 1, a.vp + rows, b.vp + 1), shift = vp_ite(lowest > max, lowest - max, 0);
		check(parse(file(t, "STL25.01", digits(m, 2))), want, t, 25, max, shift);
		if (shift) vp_cover("moved"); else vp_cover("not moved");
		break;
	}
	case 4: {
		int f = vp_choice("field", 6), v = vp_byte("value");
		switch (f) {
		case 0: a.jc = v; vp_assume(v <= 3); break;
		case 1: a.cf = v; break;
		case 2: a.sgn = v; break;
		case 3: a.sn = v; break;
		case 4: a.sn = v << 8; break;
		case 5: a.cs = v; vp_assume(v <= 3); break;
		}
		a.text = "ab\x80" "cd";
		t.push_back(a);
		Tti b;
		b.text = "ef";
		t.push_back(b);
		std::vector<RawSubtitle> got;
		bool refused = false;
		try { got = parse(file(t)); } catch (STLError&) { refused = true; }
		int known = vp_ite(f == 1, v <= 1, 1);
		vp_assert(known == !refused, "an unknown comment flag is accepted, or a known one refused");
		if (refused) { vp_cover("refused"); vp_stop(); }
		if (f == 0) t[0].jc = (int) vp_concretize(v);
		if (f == 1) t[0].cf = (int) vp_concretize(v);
		if (!t[0].cf) expand(a.text, 0, want);
		expand(b.text, 1, want);
		check(got, want, t, 25, 23, 0);
		vp_cover(t[0].cf ? "comment" : "read");
		break;
	}
	case 5: {
		for (int i = 0; i < 4; ++i) {
			Tti b;
			b.from[2] = i * 2; b.to[2] = i * 2 + 1;
			b.vp = 8 + i;
			b.cf = vp_choice("comment", 2);
			int k = vp_choice("text", i ? 3 : 6);
			b.text = k == 0 ? "a\x80" "b" : k == 1 ? "c\x82" "d\x8a" "\x01" "e" : k == 3 ? "j\x8f\x8f\x8a" "k" : k == 4 ? "l\x80" "m\x8f" "\x8a" "\x8a" "n\x8f" "\x8a" "\x05" "o" : k == 5 ? "\x8f" "\x8a" "q" : "\x04" "f\x80" "g\x8a" "h\x81" "i";
			t.push_back(b);
			if (!b.cf) expand(b.text, i, want);
		}
		check(parse(file(t)), want, t, 25, 23, 0);
		vp_cover("end");
		break;
	}
	case 6: {
		int const n = vp_choice("blocks", 2) ? 1100 : 300;
		for (int i = 0; i < n; ++i) {
			Tti b;
			b.from[1] = i / 60; b.from[2] = i % 60; b.to[1] = i / 60; b.to[2] = i % 60; b.to[3] = 20;
			b.sn = i;
			b.vp = 10 + i % 10;
			b.jc = i % 4;
			b.cf = i % 7 == 3;
			b.text = std::string(i % 100 + 1, (char) ('a' + i % 26)) + (i % 3 ? "\x82" : "\x80") + "x\x8a" "\x02" "y";
			if (i == 150) b.text[0] = (char) vp_char("byte", "ABCDEFGH", 8);
			t.push_back(b);
			std::vector<Ch> w;
			std::string x = b.text;
			if (i == 150) x[0] = (char) vp_concretize(x[0]);
			if (!b.cf) expand(x, i, want);
		}
		check(parse(file(t)), want, t, 25, 23, 0);
		vp_cover("end");
		break;
	}
	case 7: {
		static char const* const ds = " 012", * const tcs = "01";
		int standard = vp_choice("display standard", 4), table = vp_choice("character code table", 5), status = vp_choice("time code status", 2), number = vp_choice("numbers", 3);
		static char const* const texts[3] = {"a\x80" "b\x82" "c\x8a" "\x03" "d", "e\x01" "f\x82" "g", "h\x8a" "i"};
		for (int i = 0; i < 3; ++i) {
			Tti b;
			b.from[2] = i * 2; b.to[2] = i * 2 + 1;
			b.vp = 8 + i;
			b.jc = 1 + i;
			b.cs = vp_choice("cumulative status", 4);
			b.sn = number == 0 ? i : number == 1 ? 7 : 255 + i;
			b.sgn = number == 2 ? i : 0;
			b.text = texts[(i + number) % 3];
			t.push_back(b);
			expand(b.text, i, want);
		}
		std::string f = file(t);
		f[11] = ds[standard];
		f[13] = (char) ('0' + table);
		f[255] = tcs[status];
		check(parse(f), want, t, 25, 23, 0);
		vp_cover("end");
		break;
	}
	}
}
