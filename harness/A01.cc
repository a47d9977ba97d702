//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subtitle.cc util.cc vertical_position.cc effect.cc
//@ case 0 any text at all :: 8 bytes (10 in the thorough tier), each any of the bytes \ { } n N i 1 0 x, between other text [quick=200]
//@ case 1 style tags :: 3 pieces, each text of any byte, a line break, or a block of one or two tags \b \i \u followed by 0, 1 or another character, for styles with none or all of them set (every style in the thorough tier) [quick=150]
//@ case 2 font sizes :: \fs1..999, whole or with a fraction, with PlayResY 288, 1080, 100 and 7, one or two tags [quick=100]
//@ case 3 colours :: \c&Hbbggrr& with each digit in turn any of 0-9a-fA-F, 1..6 digits or 8 (with alpha), and a bare \c [quick=100]
//@ case 4 tags without a meaning here :: 26 tags of the format, followed by any letter, alone or among others in their block [quick=100]
//@ case 5 long texts :: 40 runs in 2000 characters with one tag and one byte any [quick=60]
//@ case 6 the same through a document :: a Dialogue line of 3 pieces, any bytes [quick=100]
//@ cover 0: tagged, plain, break
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ assume override blocks are closed; text bytes of the cases other than 0 are none of NUL, LF, CR, \ and {
#include "ssa.h"

struct Attr {
	int b, i, u;
	double size, r, g, bl;
};
struct Seg { std::string text; Attr a; bool merged; };

static std::vector<Seg> want;
static std::string cur;
static bool soft;	// the boundary before `cur` may be absent
static Attr attr;

static void start (Attr const& a) { want.clear(); cur.clear(); soft = false; attr = a; }
static void push (bool boundary)
{
	if (!cur.empty()) {
		Seg s;
		s.text = cur; s.a = attr; s.merged = soft && !want.empty();
		want.push_back(s);
		cur.clear();
		soft = !boundary;
	} else if (boundary) {
		soft = false;
	}
}

static void check (std::vector<RawSubtitle> const& got, RawSubtitle const& base)
{
	size_t k = 0;
	All flags, size, colour, rest, text;
	for (size_t i = 0; i < got.size(); ++i) {
		RawSubtitle const& g = got[i];
		vp_assert(!g.text.empty(), "a run is empty");
		vp_assert(k < want.size(), "there are too many runs");
		Seg s = want[k++];
		while (s.text.size() < g.text.size() && k < want.size() && want[k].merged) s.text += want[k++].text;
		vp_assert(s.text.size() == g.text.size(), "a run is split in the wrong place");
		text.add(vp_str_eq(g.text, s.text));
		flags.add(((int) g.bold == s.a.b) & ((int) g.italic == s.a.i) & ((int) g.underline == s.a.u));
		vp_assert(bool(g.font_size.proportional()), "a run has no font size");
		size.add(about(g.font_size.proportional().get(), s.a.size));
		colour.add(same_colour(g.colour, s.a.r, s.a.g, s.a.bl));
		rest.add(g.font == base.font && g.effect == base.effect && g.from == base.from && g.to == base.to);
		vp_observe_str(g.text);
	}
	vp_assert(k == want.size(), "there are too few runs");
	vp_assert(text.v, "a run has the wrong text");
	vp_assert(flags.v, "a run has the wrong bold, italic or underline");
	vp_assert(size.v, "a run has the wrong font size");
	vp_assert(colour.v, "a run has the wrong colour");
	vp_assert(rest.v, "a run has the wrong font, effect or times");
}

static RawSubtitle style (int k, int size, int res_y)
{
	RawSubtitle s;
	s.bold = k & 1; s.italic = k & 2; s.underline = k & 4;
	s.font = "Arial";
	s.font_size.set_proportional((float) size / res_y);
	s.colour = Colour(0.2, 0.4, 0.6);
	s.from = Time::from_hms(0, 0, 1, 0);
	s.to = Time::from_hms(0, 0, 2, 0);
	s.effect = SHADOW;
	return s;
}
static Attr of (int k, int size, int res_y)
{
	Attr a = {k & 1, (k >> 1) & 1, (k >> 2) & 1, (double) size / res_y, 51, 102, 153};
	return a;
}
static void tag_set (char letter, char value)
{
	int on = value == '1', is = EITHER(value == '0', value == '1');
	attr.b = (int) vp_ite(BOTH(letter == 'b', is), on, attr.b);
	attr.i = (int) vp_ite(BOTH(letter == 'i', is), on, attr.i);
	attr.u = (int) vp_ite(BOTH(letter == 'u', is), on, attr.u);
}

extern "C" void vp_harness ()
{
	static char const* const HEX = "0123456789abcdefABCDEF";
	switch (vp_case()) {
	case 0: {
		RawSubtitle base = style(0, 72, 288);
		start(of(0, 72, 288));
		std::string t = "p";
		for (int i = 0; i < (vp_tier() ? 10 : 8); ++i) t += (char) vp_char("byte", "\\{}nNi10x", 9);
		t += "q";
		bool tagged = false, broken = false;
		size_t i = 0;
		while (i < t.size()) {
			if (t[i] == '{') {
				++i;
				std::string tag;
				bool any = false;
				for (;;) {
					if (i == t.size()) vp_stop();
					char c = t[i++];
					if (c == '}' || c == '\\') {
						if (any) {
							push(true);
							if (tag == "i1") attr.i = 1;
							else if (tag == "i0" || tag == "i") attr.i = 0;
							tagged = true;
						}
						if (c == '}') break;
						any = true;
						tag = "";
					} else {
						tag += c;
					}
				}
				push(any);
			} else if (t[i] == '\\') {
				if (i + 1 < t.size() && (t[i + 1] == 'n' || t[i + 1] == 'N')) { push(true); broken = true; }
				i += 2;
			} else {
				cur += t[i++];
			}
		}
		push(true);
		check(parse_line(base, t, SSAReader::Context(288, 288, Colour(1, 1, 1))), base);
		if (tagged) vp_cover("tagged"); else vp_cover("plain");
		if (broken) vp_cover("break");
		break;
	}
	case 1: {
		int k = vp_tier() ? vp_choice("style", 8) : vp_choice("style", 2) * 7;
		RawSubtitle base = style(k, 72, 288);
		start(of(k, 72, 288));
		std::string t;
		for (int i = 0; i < 3 + vp_tier(); ++i) {
			switch (vp_choice("piece", 4)) {
			case 0: { char c = text_byte("byte"); t += c; cur += c; break; }
			case 1: t += vp_tier() && vp_choice("capital", 2) ? "\\N" : "\\n"; push(true); break;
			case 2: { char l = (char) vp_char("letter", "biu", 3), v = (char) vp_char("value", "01xZ", 4); t += std::string("{\\") + l + v + "}"; push(true); tag_set(l, v); break; }
			case 3: { char l = (char) vp_char("letter", "biu", 3), v = (char) vp_char("value", "01", 2); t += std::string("{\\u1\\") + l + v + "}"; push(true); tag_set('u', '1'); tag_set(l, v); break; }
			}
		}
		t += "q";
		cur += "q";
		push(true);
		check(parse_line(base, t, SSAReader::Context(288, 288, Colour(1, 1, 1))), base);
		vp_cover("end");
		break;
	}
	case 2: {
		static int const res[4] = {288, 1080, 100, 7};
		int r = res[vp_choice("PlayResY", 4)], two = vp_choice("another", 3);
		RawSubtitle base = style(0, 20, r);
		start(of(0, 20, r));
		std::string n, t = "p";
		cur = "p";
		ll v = number("size", 1, 999, n);
		int frac = vp_choice("fraction", 4);
		double tenths = 0;
		if (frac == 1) { n += ".5"; tenths = 5; }
		else if (frac == 2) { n += ".25"; tenths = 2.5; }
		else if (frac == 3) {
			static char const* const whole[3] = {"3", "20", "144"};
			static int const w[3] = {3, 20, 144};
			int i = vp_choice("whole", 3);
			char d = (char) vp_char("tenth", "0123456789", 10);
			n = std::string(whole[i]) + "." + d;
			v = w[i]; tenths = d - '0';
		}
		t += (two == 1 ? "{\\fs33\\fs" : "{\\fs") + n + (two == 2 ? "\\i1" : "") + "}";
		push(true);
		attr.size = (v + tenths / 10) / r;
		if (two == 2) attr.i = 1;
		t += "q\\nr";
		cur = "q"; push(true);
		cur = "r"; push(true);
		check(parse_line(base, t, SSAReader::Context(500, r, Colour(1, 1, 1))), base);
		vp_cover("end");
		break;
	}
	case 3: {
		int n = 1 + vp_choice("digits", 7), k = vp_choice("place", n == 7 ? 8 : n), other = vp_choice("base", 2), bare = vp_choice("bare", 3);
		if (n == 7) n = 8;
		std::string d = std::string(other ? "F59aF07b" : "8000c3D1").substr(8 - n);
		d[k] = (char) vp_char("digit", HEX, 22);
		std::string full = n == 8 ? d.substr(2) : std::string(6 - n, '0') + d;
		int v[3];
		for (int j = 0; j < 3; ++j) {
			int x[2];
			for (int m = 0; m < 2; ++m) { char c = full[2 * j + m]; x[m] = (int) vp_ite(c <= '9', c - '0', vp_ite(c >= 'a', c - 'a' + 10, c - 'A' + 10)); }
			v[j] = x[0] * 16 + x[1];
		}
		RawSubtitle base = style(0, 72, 288);
		start(of(0, 72, 288));
		std::string t = "p";
		cur = "p";
		if (bare == 1) { t += "{\\c}x"; push(true); attr.r = 255 * 0.3; attr.g = 255 * 0.5; attr.bl = 255 * 0.7; cur = "x"; }
		t += "{\\c&H" + d + "&}q";
		push(true);
		attr.r = v[2]; attr.g = v[1]; attr.bl = v[0];
		cur = "q"; push(true);
		if (bare == 2) { t += "{\\i1\\c}r"; attr.i = 1; attr.r = 255 * 0.3; attr.g = 255 * 0.5; attr.bl = 255 * 0.7; cur = "r"; push(true); }
		check(parse_line(base, t, SSAReader::Context(288, 288, Colour(0.3, 0.5, 0.7))), base);
		vp_cover("end");
		break;
	}
	case 4: {
		static char const* const tags[26] = {"bord2", "shad1", "blur1", "be1", "fad(100,200)", "k10", "kf10", "move(1,2,3,4)", "fnArial", "frz30", "org(1,2)", "q2", "1c&H0000FF&", "3c&H00FF00&", "alpha&H80&", "1a&H80&", "fscx120", "fscy80", "fsp2", "clip(1,2,3,4)", "iclip(1,2,3,4)", "a6", "p1", "xshad2", "fax1", "s1"};
		int k = vp_choice("tag", 26), how = vp_choice("where", 3), sty = vp_choice("style", 2) * 7;
		RawSubtitle base = style(sty, 72, 288);
		start(of(sty, 72, 288));
		std::string tag = tags[k];
		if (vp_choice("a letter after", 2)) tag += (char) vp_range("letter", 'a', 'z');
		std::string t = "p";
		cur = "p";
		t += how == 0 ? "{\\" + tag + "}q" : how == 1 ? "{\\" + tag + "\\b1}q" : "{\\b0\\" + tag + "\\u0}q";
		push(true);
		if (how == 1) attr.b = 1;
		if (how == 2) attr.b = attr.u = 0;
		cur = "q"; push(true);
		check(parse_line(base, t, SSAReader::Context(288, 288, Colour(1, 1, 1))), base);
		vp_cover("end");
		break;
	}
	case 5: {
		int k = vp_choice("place", 4) * 13;
		RawSubtitle base = style(2, 72, 288);
		start(of(2, 72, 288));
		std::string t;
		for (int i = 0; i < 40; ++i) {
			std::string x (50, (char) ('A' + i % 26));
			if (i == k) x[25] = text_byte("byte");
			t += x; cur += x;
			push(true);
			if (i % 3 == 0) t += "\\N";
			else {
				char l = "biu"[i % 3], v = i == k ? (char) vp_char("value", "01", 2) : "01"[i / 3 % 2];
				t += std::string("{\\") + l + v + "}";
				tag_set(l, v);
			}
		}
		check(parse_line(base, t, SSAReader::Context(288, 288, Colour(1, 1, 1))), base);
		vp_cover("end");
		break;
	}
	case 6: {
		std::string t = "p";
		RawSubtitle base;
		base.font = "Serif";
		base.from = Time::from_hms(0, 0, 1, 0);
		base.to = Time::from_hms(0, 0, 2, 0);
		Attr a = {0, 1, 0, 20.0 / 200, 16, 32, 48};
		start(a);
		cur = "p";
		for (int i = 0; i < 3 + vp_tier(); ++i) {
			switch (vp_choice("piece", 7)) {
			case 0: { char c = text_byte("byte"); t += c; cur += c; break; }
			case 1: t += "\\N"; push(true); break;
			case 2: { char l = (char) vp_char("letter", "biu", 3), v = (char) vp_char("value", "01", 2); t += std::string("{\\") + l + v + "}"; push(true); tag_set(l, v); break; }
			case 3: { char d = (char) vp_char("digit", HEX, 22); t += std::string("{\\c&H00") + d + "180&}"; push(true); attr.r = 0x80; attr.g = ((int) vp_ite(d <= '9', d - '0', vp_ite(d >= 'a', d - 'a' + 10, d - 'A' + 10))) * 16 + 1; attr.bl = 0; break; }
			case 4: t += "{\\c}"; push(true); attr.r = 16; attr.g = 32; attr.bl = 48; break;
			case 5: { std::string n; ll v = number("size", 10, 99, n); t += "{\\fs" + n + "}"; push(true); attr.size = v / 200.0; break; }
			case 6: t += ", : ;"; cur += ", : ;"; break;
			}
		}
		t += "q";
		cur += "q";
		push(true);
		check(parse("[Script Info]\nPlayResX: 300\nPlayResY: 200\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Italic\nStyle: Other,Arial,10,&H00FFFFFF,0\nStyle: Mine,Serif,20,&H00302010,-1\n\n[Events]\nFormat: Layer, Start, End, Style, Text\nDialogue: 0,0:00:01.00,0:00:02.00,Mine," + t + "\n"), base);
		vp_cover("end");
		break;
	}
	}
}
