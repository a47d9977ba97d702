//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subtitle.cc util.cc vertical_position.cc effect.cc
//@ case 0 orders of columns :: 14 columns rotated and reversed by any amount, spaces after the commas or not, flags -1, 0, 1 or any digit, one number any, the three margins equal or not [quick=150]
//@ case 1 colours :: &Hbbggrr, &Haabbggrr and decimal, for the primary and back colours; each digit in turn any hexadecimal digit, decimals around the powers of two, negative or not [quick=100]
//@ case 2 which style :: 0..4 styles, the event naming any of them, an undefined one or any letter, with 0..2 stars in front on either side, Default present, last, first or absent [quick=150]
//@ case 3 missing columns :: each subset of 6 columns left out [quick=60]
//@ case 4 styles do not affect one another :: 3 events by 3 styles in any order with override tags at the end of each text, a style defined again at once, after others or after the first event, or not [quick=100]
//@ case 5 flags and border styles :: Bold, Italic, Underline and BorderStyle one of -1 0 1 3 -10 empty or any character [quick=100]
//@ case 6 many styles :: 30 styles, one with a symbolic size, whole or with one or two decimals [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
#include "ssa.h"

struct St {
	std::string name, font;
	double size;
	int pr, pg, pb;
	bool back;
	int br, bg, bb;
	int bold, italic, underline, shadow;
	int align;
	double l, r, v;
	bool has_font;
	St () : name("S"), font("Arial"), size(20), pr(255), pg(255), pb(255), back(false), br(0), bg(0), bb(0), bold(0), italic(0), underline(0), shadow(0), align(2), l(0), r(0), v(0), has_font(true) {}
};

static HorizontalReference horizontal (int a) { return a % 3 == 1 ? LEFT_OF_SCREEN : a % 3 == 2 ? HORIZONTAL_CENTRE_OF_SCREEN : RIGHT_OF_SCREEN; }
static VerticalReference vertical (int a) { return a <= 3 ? BOTTOM_OF_SCREEN : a <= 6 ? VERTICAL_CENTRE_OF_SCREEN : TOP_OF_SCREEN; }
static int const X = 640, Y = 480;

static void check (RawSubtitle const& g, St const& s, std::string const& text)
{
	vp_assert(vp_str_eq(g.text, text), "a run has the wrong text");
	vp_assert(bool(g.font) == s.has_font && (!s.has_font || vp_str_eq(g.font.get(), s.font)), "the font is not the style's");
	vp_assert(g.font_size.proportional() && about(g.font_size.proportional().get(), s.size / Y), "the font size is not the style's");
	vp_assert(same_colour(g.colour, s.pr, s.pg, s.pb), "the colour is not the style's");
	vp_assert(bool(g.effect_colour) == s.back, "the back colour is not the style's");
	if (s.back && g.effect_colour) vp_assert(same_colour(g.effect_colour.get(), s.br, s.bg, s.bb), "the back colour is not the style's");
	vp_assert(((int) g.bold == s.bold) & ((int) g.italic == s.italic) & ((int) g.underline == s.underline), "bold, italic or underline are not the style's");
	vp_assert(bool(g.effect) == (s.shadow != 0) && (!g.effect || g.effect.get() == SHADOW), "the effect is not the style's");
	vp_assert(g.horizontal_position.reference == horizontal(s.align) && g.vertical_position.reference && g.vertical_position.reference.get() == vertical(s.align), "the alignment is not the style's");
	double h = s.align % 3 == 1 ? s.l / X : s.align % 3 == 0 ? s.r / X : (s.l - s.r) / (2.0 * X);
	vp_assert(about(g.horizontal_position.proportional, h), "the left and right margins are not the style's");
	if (s.align < 4 || s.align > 6) vp_assert(g.vertical_position.proportional && about(g.vertical_position.proportional.get(), s.v / Y), "the vertical margin is not the style's");
}

static std::string const HEAD = "[Script Info]\nPlayResX: 640\nPlayResY: 480\n\n[V4+ Styles]\n";
static std::string const EVENTS = "\n[Events]\nFormat: Layer, Start, End, Style, Name, Text\n";
static std::string event (std::string const& style, std::string const& text) { return "Dialogue: 0,0:00:01.00,0:00:02.00," + style + ",," + text + "\n"; }

static int hex (char c) { return (int) vp_ite(c <= '9', c - '0', vp_ite(c >= 'a', c - 'a' + 10, c - 'A' + 10)); }
static char const* const HEX = "0123456789abcdefABCDEF";

static void one (std::string const& doc, St const& s)
{
	std::vector<RawSubtitle> got = parse(doc);
	vp_assert(got.size() == 1, "the number of runs is wrong");
	if (got.size() != 1) vp_stop();
	check(got[0], s, "text");
}

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		char const* names[14] = {"Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "BackColour", "Bold", "Italic", "Underline", "BorderStyle", "Alignment", "MarginL", "MarginR", "MarginV"};
		std::string values[14] = {"S", "Serif", "31", "&H00102030", "&H000000FF", "&H00405060", "0", "-1", "0", "3", "7", "11", "13", "17"};
		St s;
		s.font = "Serif"; s.size = 31; s.pr = 0x30; s.pg = 0x20; s.pb = 0x10; s.back = true; s.br = 0x60; s.bg = 0x50; s.bb = 0x40; s.italic = 1; s.align = 7; s.l = 11; s.r = 13; s.v = 17;
		int rot = vp_choice("rotation", 14), rev = vp_choice("reversed", 2), space = vp_choice("spaces", 3), which = vp_choice("symbolic", 10);
		std::string n;
		switch (which) {
		case 0: s.size = (double) number("size", 1, 200, n); values[2] = n; break;
		case 1: s.l = (double) number("margin", 0, 999, n); values[11] = n; break;
		case 2: s.r = (double) number("margin", 0, 999, n); values[12] = n; s.align = 3; values[10] = "3"; break;
		case 3: s.v = (double) number("margin", 0, 999, n); values[13] = n; break;
		case 4: s.align = 1 + vp_choice("alignment", 9); values[10] = digits(s.align, 1); break;
		case 5: { char c = (char) vp_range("flag", '0', '9'); values[6] = std::string("-") + c; s.bold = c == '1'; break; }
		case 6: { char c = (char) vp_range("flag", '0', '9'); values[8] = std::string("-") + c; s.underline = c == '1'; break; }
		case 7: { char c = (char) vp_range("border", '0', '9'); values[9] = std::string(1, c); s.shadow = vp_choice("border is 1", 2); vp_assume((c == '1') == s.shadow); break; }
		case 9: s.l = s.r = s.v = (double) number("margin", 0, 999, n); values[11] = values[12] = values[13] = n; s.align = 1 + vp_choice("alignment", 9); values[10] = digits(s.align, 1); break;
		case 8: { char c = (char) vp_range("font", 'A', 'z'); values[1] = std::string("F") + c; s.font = values[1]; break; }
		}
		std::string f = "Format: ", v = "Style: ";
		for (int i = 0; i < 14; ++i) {
			int k = (i + rot) % 14;
			if (rev) k = 13 - k;
			f += (i ? space ? ", " : "," : "") + std::string(names[k]);
			v += (i ? space == 2 ? " ," : "," : "") + values[k];
		}
		one(HEAD + f + "\n" + v + "\n" + EVENTS + event("S", "text"), s);
		vp_cover("end");
		break;
	}
	case 1: {
		int back = vp_choice("column", 2), form = vp_choice("form", 3), old = vp_choice("other", 2);
		std::string v;
		int r, g, b;
		if (form < 2) {
			int n = form ? 8 : 6, k = vp_choice("digit", n);
			std::string d = std::string(old ? "80f07b3c" : "007d05E9").substr(8 - n);
			d[k] = (char) vp_char("digit", HEX, 22);
			v = "&H" + d;
			std::string c = d.substr(n - 6);
			b = hex(c[0]) * 16 + hex(c[1]); g = hex(c[2]) * 16 + hex(c[3]); r = hex(c[4]) * 16 + hex(c[5]);
		} else {
			static ll const bases[8] = {0, 200, 65436, 65536, 8388508, 16776966, 16777166, 2147483400};
			int k = vp_choice("base", 8);
			ll x;
			std::string t;
			x = number("value", bases[k], bases[k] + 199, t);
			v = t;
			// &HFF...... as it is written by programs whose integers have a sign
			if (vp_choice("negative", 2)) { v = "-" + t; x = -x & 0xffffffff; }
			r = (int) (x & 255); g = (int) ((x >> 8) & 255); b = (int) ((x >> 16) & 255);
		}
		St s;
		s.back = back || old;
		if (back) { s.br = r; s.bg = g; s.bb = b; s.pr = 1; s.pg = 2; s.pb = 3; } else { s.pr = r; s.pg = g; s.pb = b; if (old) { s.br = 1; s.bg = 2; s.bb = 3; } }
		std::string line = "Style: S,Arial,20,";
		if (back) line += "&H030201," + v; else line += v + (old ? ",197121" : "");
		one(HEAD + "Format: Name, Fontname, Fontsize, PrimaryColour" + (back || old ? ", BackColour" : "") + "\n" + line + "\n" + EVENTS + event("S", "text"), s);
		vp_cover("end");
		break;
	}
	case 2: {
		int styles = vp_choice("styles", 4), def = vp_choice("Default", 3), stars = vp_choice("stars", 4), name = vp_choice("name", 5), defstars = vp_choice("stars in the definition", 3);
		std::string doc = HEAD + "Format: Name, Fontname, Fontsize\n";
		std::string star = std::string(stars, '*'), ds = std::string(defstars, '*');
		if (def == 1) doc += "Style: " + ds + "Default,Courier,50\n";
		for (int i = 0; i < styles; ++i) doc += "Style: " + (i == 1 ? ds : "") + std::string(1, (char) ('A' + i)) + ",Font" + (char) ('0' + i) + "," + digits(10 + i, 2) + "\n";
		if (def == 2) doc += "Style: " + ds + "Default,Courier,50\n";
		char c = name < 3 ? (char) ('A' + name) : (char) vp_range("style", 'A', 'z');
		std::string used = name == 4 ? "Default" : std::string(1, c);
		St s;
		if (name < 4 && c >= 'A' && c < 'A' + styles) { int i = (int) vp_concretize(c - 'A'); s.font = std::string("Font") + (char) ('0' + i); s.size = 10 + i; }
		else if (def) { s.font = "Courier"; s.size = 50; }
		else { s.has_font = false; s.size = 72; }
		one(doc + EVENTS + event(star + used, "text"), s);
		vp_cover("end");
		break;
	}
	case 3: {
		int left = vp_choice("columns", 64);
		char const* names[6] = {"Fontname", "Fontsize", "PrimaryColour", "Bold", "Alignment", "MarginV"};
		char const* values[6] = {"Serif", "30", "&H010203", "-1", "9", "33"};
		St s;
		s.has_font = left & 1; s.font = "Serif";
		s.size = left & 2 ? 30 : 72;
		if (left & 4) { s.pr = 3; s.pg = 2; s.pb = 1; }
		s.bold = left & 8 ? 1 : 0;
		s.align = left & 16 ? 9 : 2;
		s.v = left & 32 ? 33 : 0;
		std::string f = "Name, Encoding", v = "S,0";
		for (int i = 0; i < 6; ++i) if (left & (1 << i)) { f += std::string(", ") + names[i]; v += std::string(",") + values[i]; }
		one(HEAD + "Format: " + f + "\nStyle: " + v + "\n" + EVENTS + event("S", "text"), s);
		vp_cover("end");
		break;
	}
	case 4: {
		St st[3];
		char const* fonts[3] = {"Arial", "Serif", "Courier"};
		std::string doc = HEAD + "Format: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\n";
		for (int i = 0; i < 3; ++i) {
			St& s = st[i];
			s.font = fonts[i]; s.size = 10 + i; s.pr = i; s.pg = 10 * i; s.pb = 50 * i; s.back = true; s.br = 3 * i; s.bg = i; s.bb = 5;
			s.bold = i == 0; s.italic = i == 1; s.underline = i == 2; s.shadow = i == 1; s.align = 1 + 3 * i; s.l = i; s.r = 2 * i; s.v = 3 * i;
			doc += std::string("Style: ") + (char) ('A' + i) + "," + fonts[i] + "," + digits(10 + i, 2) + ",&H" + digits(0, 2) + std::string(i == 0 ? "00" : i == 1 ? "32" : "64") + (i == 0 ? "00" : i == 1 ? "0A" : "14") + digits(i, 2) + ",&H05" + digits(i, 2) + digits(3 * i, 2) + ","
				+ (s.bold ? "-1" : "0") + "," + (s.italic ? "-1" : "0") + "," + (s.underline ? "-1" : "0") + "," + (s.shadow ? "1" : "3") + "," + digits(s.align, 1) + "," + digits(i, 1) + "," + digits(2 * i, 1) + "," + digits(3 * i, 1) + "\n";
		}
		// defined again, under the same columns
		St again;
		again.font = "Again"; again.size = 77; again.underline = 1; again.align = 9; again.back = true; again.r = 5;
		std::string const redefine = "Style: B,Again,77,&H00FFFFFF,&H00000000,0,0,-1,3,9,0,5,0\n";
		int redefined = vp_choice("defined again", 4);
		if (redefined == 1) doc.insert(doc.find("Style: C"), redefine);
		if (redefined == 2) doc += redefine;
		doc += EVENTS;
		int which[3], tags = vp_choice("tags", 2);
		for (int i = 0; i < 3; ++i) { which[i] = vp_choice("style", 3); doc += event(std::string(1, (char) ('A' + which[i])), std::string("text") + (tags ? "{\\b1\\i1\\u1\\fs99\\c&H00FF00&\\an5}" : "")); if (tags) doc.insert(doc.size() - 1, "x"); if (i == 0 && redefined == 3) doc += "[V4+ Styles]\n" + redefine + "[Events]\n"; }
		std::vector<RawSubtitle> got = parse(doc);
		vp_assert(got.size() == (tags ? 6u : 3u), "the number of runs is wrong");
		if (got.size() != (tags ? 6u : 3u)) vp_stop();
		for (int i = 0; i < 3; ++i) {
			St s = st[which[i]];
			if (which[i] == 1 && redefined && (redefined < 3 || i)) s = again;
			// the first run of each text, whose place the \an tag at the end does not matter to
			RawSubtitle g = got[tags ? 2 * i : i];
			check(g, s, "text");
		}
		vp_cover("end");
		break;
	}
	case 5: {
		int which = vp_choice("column", 4), how = vp_choice("value", 6);
		St s;
		std::string v[4] = {"0", "0", "0", "3"};
		switch (how) {
		case 0: v[which] = "-1"; break;
		case 1: v[which] = "1"; break;
		case 2: v[which] = "-10"; break;
		case 3: v[which] = ""; break;
		case 4: { char c = (char) vp_range("character", '!', '~'); vp_assume((c != ',') & (c != '1')); v[which] = std::string(1, c); break; }
		case 5: { char c = (char) vp_range("character", '0', '9'); v[which] = std::string("-1") + c; break; }
		}
		if (which < 3 && how == 0) (which == 0 ? s.bold : which == 1 ? s.italic : s.underline) = 1;
		if (which == 3 && how == 1) s.shadow = 1;
		one(HEAD + "Format: Name, Fontname, Fontsize, Bold, Italic, Underline, BorderStyle, Encoding\nStyle: S,Arial,20," + v[0] + "," + v[1] + "," + v[2] + "," + v[3] + ",0\n" + EVENTS + event("S", "text"), s);
		vp_cover("end");
		break;
	}
	case 6: {
		int k = vp_choice("style", 4) * 9;
		std::string doc = HEAD + "Format: Name, Fontname, Fontsize\n", n;
		double v = (double) number("size", 1, 249, n);
		int part = vp_choice("fraction", 3);
		if (part) { ll d = vp_range("digit", 0, 9); n += (part == 2 ? ".2" : ".") + digits(d, 1); v += part == 2 ? 0.2 + (double) d / 100 : (double) d / 10; }
		for (int i = 0; i < 30; ++i) doc += "Style: Style number " + digits(i, 2) + ",Font " + digits(i, 2) + "," + (i == k ? n : digits(20 + i, 2)) + "\n";
		doc += EVENTS;
		for (int i = 29; i >= 0; --i) doc += event("Style number " + digits(i, 2), "text");
		std::vector<RawSubtitle> got = parse(doc);
		vp_assert(got.size() == 30, "the number of runs is wrong");
		for (int i = 29; i >= 0; --i) {
			St s;
			s.font = "Font " + digits(i, 2);
			s.size = i == k ? (double) v : 20 + i;
			check(got[29 - i], s, "text");
		}
		vp_cover("end");
		break;
	}
	}
}
