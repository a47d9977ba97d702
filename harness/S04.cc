//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc effect.cc web_vtt_reader.cc
//@ case 0 hexadecimal colours :: 6 and 8 digits, each in turn any of 0-9a-fA-F with the others at two settings, 3 kinds of quotes, <font and <Font, other attributes around [quick=150]
//@ case 1 both digits of a component :: every pair of digits for each component [quick=100] [thorough-only]
//@ case 2 rgba() colours :: each component in turn any of 0..255, optional spaces [quick=100]
//@ case 3 nesting :: 5 pieces (6 in the thorough tier), each text of any byte, one of two font tags, </font> or a new line, and then another cue [quick=200]
//@ case 4 hexadecimal colours of the wrong length :: 1..12 digits, one of them any hexadecimal digit [quick=60]
//@ case 5 malformed rgba() and other colours :: each character of rgba(1,2,3,4) and of color= replaced by any letter, and 8 other malformed tags [quick=60]
//@ case 6 colours and styles together :: 4 pieces, each a style tag or font tag opening or closing, with text between [quick=100]
//@ case 7 deep nesting :: 40 font tags deep, one of them symbolic, then 45 </font> [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: refused
//@ cover 5: refused
//@ cover 6: end
//@ cover 7: end
//@ assume text bytes are none of NUL, LF, CR, <, {, E2h, EFh
#include "subrip.h"

static char text_byte (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != '\n') & (c != '\r') & (c != '<') & (c != '{') & (c != 0) & (c != '\xe2') & (c != '\xef'));
	return c;
}

static std::string cue (ll ms) { return "1\n" + stamp(ms, ',') + " --> " + stamp(ms + 500, ',') + "\n"; }

struct C { double r, g, b; C (double x = 255, double y = 255, double z = 255) : r(x / 255), g(y / 255), b(z / 255) {} };

struct Expect {
	std::vector<Run> want;
	std::string cur;
	C colour;
	bool bold, italic, underline;
	int line;
	ll from;
	Expect () : bold(false), italic(false), underline(false), line(0), from(1000) {}
	void push ()
	{
		if (cur.empty()) return;
		Run r (cur, from, from + 500, line);
		r.r = colour.r; r.g = colour.g; r.b = colour.b;
		r.bold = bold; r.italic = italic; r.underline = underline;
		want.push_back(r);
		cur.clear();
	}
};

static std::vector<RawSubtitle> parse (std::string const& doc)
{
	try {
		return SubripReader(doc).subtitles();
	} catch (std::exception& e) {
		vp_fail("a well-formed document is refused");
	}
	return std::vector<RawSubtitle>();
}

static void refused (std::string const& doc)
{
	bool ok = false;
	try {
		SubripReader r (doc);
	} catch (SubripError& e) {
		ok = true;
	} catch (std::exception& e) {
		vp_fail("a malformed colour gives another exception");
	}
	vp_assert(ok, "a malformed colour is accepted");
	vp_cover("refused");
}

static int hex (char c) { return (int) vp_ite(c <= '9', c - '0', vp_ite(c >= 'a', c - 'a' + 10, c - 'A' + 10)); }
static char const* const HEX = "0123456789abcdefABCDEF";

extern "C" void vp_harness ()
{
	Expect x;
	std::string doc = cue(1000);
	switch (vp_case()) {
	case 0: {
		int o = vp_choice("form", vp_tier() ? 48 : 24), wide = vp_choice("alpha", 2), base = vp_choice("others", 2), k = vp_choice("digit", 8);
		if (k >= (wide ? 8 : 6)) vp_stop();
		std::string d = std::string(base ? "0fa3C81b" : "7d05E9f2").substr(0, wide ? 8 : 6);
		d[k] = (char) vp_char("digit", HEX, 22);
		// alpha of 00..0F and F0..FF too
		if (wide && k == 7) d[6] = base ? '0' : 'F';
		if (wide && k == 6) d[7] = base ? 'f' : '0';
		char const* q = o % 3 == 0 ? "\"" : o % 3 == 1 ? "'" : "";
		static char const* const before[4] = {" ", " face=\"Arial\" ", " size=12 ", "  "};
		static char const* const after[2] = {"", " size=\"12\""};
		doc += std::string("p<") + (o / 3 & 1 ? "font" : "Font") + before[o / 6 & 3] + "color=" + q + "#" + d + q + after[o / 24 & 1] + ">q</font>r\ns\n";
		x.cur = "p"; x.push();
		x.colour = C(hex(d[0]) * 16 + hex(d[1]), hex(d[2]) * 16 + hex(d[3]), hex(d[4]) * 16 + hex(d[5]));
		x.cur = "q"; x.push();
		x.colour = C();
		x.cur = "r"; x.push();
		x.line = 1; x.cur = "s"; x.push();
		check_runs(parse(doc), x.want);
		vp_cover("end");
		break;
	}
	case 1: {
		int k = vp_choice("component", 3);
		std::string d = "0fa3C8";
		d[2 * k] = HEX[vp_choice("digit", 22)];
		d[2 * k + 1] = (char) vp_char("digit", HEX, 22);
		doc += "<font color=\"#" + d + "\">q";
		x.colour = C(hex(d[0]) * 16 + hex(d[1]), hex(d[2]) * 16 + hex(d[3]), hex(d[4]) * 16 + hex(d[5]));
		x.cur = "q"; x.push();
		check_runs(parse(doc), x.want);
		vp_cover("end");
		break;
	}
	case 2: {
		int k = vp_choice("component", 4), sp = vp_choice("spaces", 4), width = 1 + vp_choice("width", 3);
		ll v = width == 1 ? vp_range("value", 0, 9) : width == 2 ? vp_range("value", 10, 99) : vp_range("value", 100, 255);
		ll c[4] = {12, 255, 0, 128};
		std::string n[4] = {"12", "255", "0", "128"};
		c[k] = v;
		n[k] = digits(v, width);
		std::string s = sp & 1 ? " " : "", e = sp & 2 ? "  " : "";
		doc += "<font color=\"rgba(" + s + n[0] + e + "," + s + n[1] + e + "," + s + n[2] + e + "," + s + n[3] + e + ")\">q</font>r";
		x.colour = C((double) c[0], (double) c[1], (double) c[2]);
		x.cur = "q"; x.push();
		x.colour = C();
		x.cur = "r"; x.push();
		check_runs(parse(doc), x.want);
		vp_cover("end");
		break;
	}
	case 3: {
		std::vector<C> stack (1, C());
		int n = vp_tier() ? 6 : 5;
		bool empty = true;
		for (int i = 0; i < n; ++i) {
			switch (vp_choice("piece", 5)) {
			case 0: { char c = text_byte("byte"); doc += c; x.cur += c; empty = false; break; }
			case 1: { char h = (char) vp_char("digit", HEX, 22); doc += std::string("<font color=\"#") + h + "00" + (char) ('1' + i) + "00\">"; x.push(); stack.push_back(C(hex(h) * 16, i + 1, 0)); empty = false; break; }
			case 2: doc += "<font color=\"rgba(9,8," + digits(i, 1) + ",6)\">"; x.push(); stack.push_back(C(9, 8, i)); empty = false; break;
			case 3: doc += "</font>"; x.push(); if (stack.size() > 1) stack.pop_back(); empty = false; break;
			case 4: if (empty) vp_stop(); doc += "\n"; x.push(); ++x.line; empty = true; break;
			}
			x.colour = stack.back();
		}
		doc += "!\n\n" + cue(2000) + "?\n</font>!\n";
		x.cur += "!"; x.push();
		x.colour = C(); x.from = 2000; x.line = 0; x.cur = "?"; x.push();
		x.line = 1; x.cur = "!"; x.push();
		check_runs(parse(doc), x.want);
		vp_cover("end");
		break;
	}
	case 4: {
		int n = 1 + vp_choice("digits", 12), q = vp_choice("quotes", 3), k = vp_choice("place", n);
		if (n == 6 || n == 8) vp_stop();
		std::string d = std::string("0123456789ab").substr(0, n);
		d[k] = (char) vp_char("digit", HEX, 22);
		char const* qs = q == 0 ? "\"" : q == 1 ? "'" : "";
		refused(doc + "first\np<font color=" + qs + "#" + d + qs + ">q</font>\n");
		break;
	}
	case 5: {
		int k = vp_choice("form", 28);
		static char const* const other[8] = {"<font color=\"red\">", "<font>", "<font face=\"Arial\">", "<font color=\"rgba(1,2,3)\">", "<font color=\"rgba(1,2,3,4,5)\">", "<font color=\"rgb(1,2,3)\">", "<font color=\"rgba(1,,3,4)\">", "<font color=\"#\">"};
		std::string t;
		if (k < 8) {
			t = other[k];
		} else {
			t = "<font color=\"rgba(1,2,3,4)\">";
			int p = k - 8 + 6;
			char c = t[p];
			if (c == '>' || p >= (int) t.size() - 1) vp_stop();
			t[p] = (char) vp_range("letter", 'a', 'z');
			vp_assume(t[p] != c);
		}
		refused(doc + "p" + t + "q\n");
		break;
	}
	case 6: {
		std::vector<C> stack (1, C());
		for (int i = 0; i < 4; ++i) {
			int k = vp_choice("piece", 7);
			char h = 0;
			switch (k) {
			case 0: doc += "<b>"; x.push(); x.bold = true; break;
			case 1: doc += "</b>"; x.push(); x.bold = false; break;
			case 2: doc += "{i}"; x.push(); x.italic = true; break;
			case 3: doc += "</i>"; x.push(); x.italic = false; break;
			case 4: h = (char) vp_char("digit", HEX, 22); doc += std::string("<font color=#0") + h + "1020>"; x.push(); stack.push_back(C(hex(h), 16, 32)); break;
			case 5: doc += "</font>"; x.push(); if (stack.size() > 1) stack.pop_back(); break;
			case 6: doc += "<u>"; x.push(); x.underline = true; break;
			}
			x.colour = stack.back();
			if (i != 1) { doc += (char) ('p' + i); x.cur += (char) ('p' + i); }
		}
		x.push();
		check_runs(parse(doc), x.want);
		vp_cover("end");
		break;
	}
	case 7: {
		std::vector<C> stack (1, C());
		int k = vp_choice("place", 4) * 13;
		for (int i = 0; i < 40; ++i) {
			std::string d = "0000" + digits(10 + i, 2);
			if (i == k) d[0] = (char) vp_char("digit", HEX, 22);
			doc += "<font color=\"#" + d + "\">" + (char) ('A' + i % 26);
			stack.push_back(C(hex(d[0]) * 16, 0, hex(d[4]) * 16 + hex(d[5])));
			x.colour = stack.back();
			x.cur = (char) ('A' + i % 26);
			x.push();
		}
		for (int i = 0; i < 45; ++i) {
			doc += std::string("</font>") + (char) ('a' + i % 26);
			if (stack.size() > 1) stack.pop_back();
			x.colour = stack.back();
			x.cur = (char) ('a' + i % 26);
			x.push();
		}
		check_runs(parse(doc), x.want);
		vp_cover("end");
		break;
	}
	}
}
