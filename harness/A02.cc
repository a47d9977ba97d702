//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subtitle.cc util.cc vertical_position.cc effect.cc
//@ case 0 alignment and margins :: every style alignment by every \an or none, 1..3 lines, style margins one of which takes any value 0..999 [quick=200]
//@ case 1 event margins :: each margin of the event any of 0..999 or written 0, 00, 0000, over style margins, 9 alignments, before and after the Style column [quick=200]
//@ case 2 stacking of lines :: 1..6, 11 or 26 lines, the breaks \n or \N, alignment in the style or by \an, font size any of 1..200, PlayResY 288, 1080, 100 [quick=200]
//@ case 3 \pos :: x and y in turn any of 0..999 (with 0..2 decimals), -99..-1, alone, after \an or in one block with other tags, PlayRes 640x480 or 288x720 [quick=100]
//@ case 4 breaks among tags :: 4 pieces (6 in the thorough tier) of text, \n, \N, tags, changes of size, escaped backslashes and blocks with breaks in them, for each alignment [quick=200]
//@ case 5 parse_line alone :: every reference, with and without a margin and a font size, PlayRes any of 4 pairs [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ assume \an and \pos come before the text they place
#include "ssa.h"

static HorizontalReference horizontal (int a) { return a % 3 == 1 ? LEFT_OF_SCREEN : a % 3 == 2 ? HORIZONTAL_CENTRE_OF_SCREEN : RIGHT_OF_SCREEN; }
static VerticalReference vertical (int a) { return a <= 3 ? BOTTOM_OF_SCREEN : a <= 6 ? VERTICAL_CENTRE_OF_SCREEN : TOP_OF_SCREEN; }

struct Expect {
	int alignment, x, y;
	double l, r, v, size;
	std::vector<std::string> runs;
	std::vector<int> line;
	int lines;
	Expect () : alignment(2), x(288), y(288), l(0), r(0), v(0), size(72), lines(1) {}
	void add (std::string const& t, int n) { runs.push_back(t); line.push_back(n); }
};

static void check (std::vector<RawSubtitle> const& got, Expect const& e)
{
	vp_assert(got.size() == e.runs.size(), "the number of runs is wrong");
	if (got.size() != e.runs.size()) vp_stop();
	HorizontalReference hr = horizontal(e.alignment);
	VerticalReference vr = vertical(e.alignment);
	double h = hr == LEFT_OF_SCREEN ? e.l / e.x : hr == RIGHT_OF_SCREEN ? e.r / e.x : (e.l - e.r) / (2.0 * e.x);
	double height = 1.2 * e.size / e.y;
	All refs, hp, vpos, text;
	for (size_t i = 0; i < got.size(); ++i) {
		RawSubtitle const& g = got[i];
		text.add(vp_str_eq(g.text, e.runs[i]));
		refs.add(g.horizontal_position.reference == hr && g.vertical_position.reference && g.vertical_position.reference.get() == vr);
		hp.add(about(g.horizontal_position.proportional, h));
		vp_assert(bool(g.vertical_position.proportional), "a run has no vertical position");
		double v = vr == TOP_OF_SCREEN ? e.v / e.y + e.line[i] * height : vr == BOTTOM_OF_SCREEN ? e.v / e.y + (e.lines - 1 - e.line[i]) * height : (e.line[i] - e.lines / 2.0) * height;
		// (adding many heights up in single precision may be less exact)
		vpos.add(e.lines < 10 ? about(g.vertical_position.proportional.get(), v) : about(g.vertical_position.proportional.get() / 64, v / 64));
		vpos.add(!g.vertical_position.line && !g.vertical_position.lines);
	}
	vp_assert(text.v, "a run has the wrong text");
	vp_assert(refs.v, "a run has the wrong references");
	vp_assert(hp.v, "a run has the wrong horizontal position");
	vp_assert(vpos.v, "a run has the wrong vertical position");
}

static std::string document (int x, int y, std::string const& style, std::string const& event_format, std::string const& event)
{
	return "[Script Info]\nPlayResX: " + digits(x, 4) + "\nPlayResY: " + digits(y, 4) + "\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, Alignment, MarginL, MarginR, MarginV\nStyle: " + style + "\n[Events]\nFormat: " + event_format + "\nDialogue: " + event + "\n";
}

static std::string an (int a) { return a ? std::string("{\\an") + (char) ('0' + a) + "}" : ""; }

extern "C" void vp_harness ()
{
	Expect e;
	switch (vp_case()) {
	case 0: {
		int style = 1 + vp_choice("alignment", 9), tag = vp_choice("tag", 10), which = vp_choice("margin", 3);
		if (!vp_tier() && tag && (style + tag) % 3 != which) vp_stop();
		e.lines = 1 + (style + tag) % 3;
		std::string n, m[3] = {"17", "40", "25"};
		ll v[3] = {17, 40, 25};
		v[which] = number("value", 0, 999, n);
		m[which] = n;
		e.x = 640; e.y = 480;
		e.alignment = tag ? tag : style;
		e.l = (double) v[0]; e.r = (double) v[1]; e.v = (double) v[2]; e.size = 20;
		std::string t = an(tag);
		for (int i = 0; i < e.lines; ++i) { std::string x (1, (char) ('a' + i)); t += (i ? "\\N" : "") + x; e.add(x, i); }
		check(parse(document(e.x, e.y, "S,Arial,20," + digits(style, 1) + "," + m[0] + "," + m[1] + "," + m[2], "Start, End, Style, Text", "0:00:01.00,0:00:02.00,S," + t)), e);
		vp_cover("end");
		break;
	}
	case 1: {
		static int const aligns[9] = {1, 2, 3, 4, 5, 6, 7, 8, 9};
		int a = aligns[vp_choice("alignment", 9)], which = vp_choice("margin", 3), kind = vp_choice("kind", 5), order = vp_choice("order", 2), other = vp_choice("others", 2);
		std::string n = kind == 0 ? "0" : kind == 1 ? "0000" : kind == 2 ? "00" : "";
		ll v = 0;
		if (kind == 3) v = number("value", 1, 999, n);
		if (kind == 4) { std::string x; v = number("value", 1, 99, x); n = std::string("00") + x; }
		double style[3] = {30, 50, 70}, event[3] = {0, 0, 0};
		std::string m[3] = {"0", "0", "0"};
		if (other) { m[0] = "5"; m[1] = "0007"; m[2] = "11"; event[0] = 5; event[1] = 7; event[2] = 11; }
		m[which] = n;
		event[which] = (double) v;
		double eff[3];
		for (int i = 0; i < 3; ++i) eff[i] = i == which ? (v == 0 ? style[i] : (double) v) : (event[i] != 0 ? event[i] : style[i]);
		e.x = 640; e.y = 480; e.size = 20;
		e.alignment = a; e.l = eff[0]; e.r = eff[1]; e.v = eff[2];
		e.lines = 2;
		e.add("p", 0); e.add("q", 1);
		std::string margins = m[0] + "," + m[1] + "," + m[2];
		std::string s = "S,Arial,20," + digits(a, 1) + ",30,50,70";
		check(parse(order ? document(640, 480, s, "MarginL, MarginR, MarginV, Start, End, Style, Text", margins + ",0:00:01.00,0:00:02.00,S,p\\Nq")
			: document(640, 480, s, "Start, End, Style, MarginL, MarginR, MarginV, Text", "0:00:01.00,0:00:02.00,S," + margins + ",p\\Nq")), e);
		vp_cover("end");
		break;
	}
	case 2: {
		static int const res[3] = {288, 1080, 100};
		static int const aligns[3] = {1, 5, 9};
		int y = res[vp_choice("PlayResY", 3)], a = aligns[vp_choice("alignment", 3)], tag = vp_choice("by tag", 2), n = 1 + vp_choice("lines", 8);
		if (n > 6) n = n == 7 ? 11 : 26;
		std::string size;
		ll v = number("size", 1, 200, size);
		e.x = 300; e.y = y; e.size = (double) v; e.v = 10; e.alignment = a; e.lines = n; e.l = 4; e.r = 2;
		std::string t = tag ? an(a) : "";
		for (int i = 0; i < n; ++i) { std::string x (1, (char) ('a' + i)); t += (i ? i % 2 ? "\\n" : "\\N" : "") + x; e.add(x, i); }
		check(parse(document(300, y, "S,Arial," + size + "," + digits(tag ? 10 - a : a, 1) + ",4,2,10", "Start, End, Style, Text", "0:00:01.00,0:00:02.00,S," + t)), e);
		vp_cover("end");
		break;
	}
	case 3: {
		int which = vp_choice("coordinate", 2), kind = vp_choice("kind", 4), where = vp_choice("after", 3), tall = vp_choice("tall", 2), align = 1 + vp_choice("alignment", 9), lines = 1 + vp_choice("lines", 2);
		std::string n;
		double v;
		switch (kind) {
		case 0: v = (double) number("value", 0, 999, n); break;
		case 1: { std::string x; v = -(double) number("value", 1, 99, x); n = "-" + x; break; }
		case 2: { std::string x; ll w = number("value", 0, 99, x); v = (double) w + 0.5; n = x + ".5"; break; }
		default: { ll w = vp_range("value", 0, 99); v = 100 + w / 100.0; n = "100." + digits(w, 2); break; }
		}
		double x = which ? 120 : v, y = which ? v : 95.25;
		std::string t = where == 1 ? "{\\an8}" : where == 2 ? "{\\b1\\an1" : "";
		t += (where == 2 ? "\\pos(" : "{\\pos(") + (which ? "120," + n : n + ",95.25") + ")}p" + (lines == 2 ? "\\Nq" : "");
		RawSubtitle base;
		base.horizontal_position.reference = horizontal(align);
		base.vertical_position.reference = vertical(align);
		float const margin = 0.125;
		base.vertical_position.proportional = margin;
		base.font_size.set_proportional(0.1f);
		std::vector<RawSubtitle> got = parse_line(base, t, SSAReader::Context(tall ? 288 : 640, tall ? 720 : 480, Colour(1, 1, 1), 20, 30));
		vp_assert(got.size() == (size_t) lines, "the number of runs is wrong");
		if (got.size() != (size_t) lines) vp_stop();
		for (int i = 0; i < lines; ++i) {
			vp_assert(got[i].horizontal_position.reference == LEFT_OF_SCREEN && got[i].vertical_position.reference && got[i].vertical_position.reference.get() == TOP_OF_SCREEN, "a run has the wrong references");
			vp_assert(about(got[i].horizontal_position.proportional, x / (tall ? 288 : 640)), "a run has the wrong horizontal position");
			vp_assert(got[i].vertical_position.proportional && about(got[i].vertical_position.proportional.get(), y / (tall ? 720 : 480) + 0.125 + i * 0.12), "a run has the wrong vertical position");
		}
		vp_cover("end");
		break;
	}
	case 4: {
		static int const aligns[3] = {3, 4, 8};
		int a = aligns[vp_choice("alignment", 3)];
		e.x = e.y = 400; e.size = 20; e.v = 8; e.alignment = a; e.l = 4; e.r = 2;
		std::string t, cur;
		int line = 0;
		for (int i = 0; i < (vp_tier() ? 6 : 4); ++i) {
			switch (vp_choice("piece", 7)) {
			case 0: t += (char) ('a' + i); cur += (char) ('a' + i); break;
			case 1: t += "\\"; t += (char) vp_char("break", "nN", 2); if (!cur.empty()) { e.add(cur, line); cur.clear(); } ++line; break;
			case 2: t += "{\\b1}"; if (!cur.empty()) { e.add(cur, line); cur.clear(); } break;
			case 3: t += "\\\\n"; cur += "n"; break;
			case 4: t += "{\\nope\\N}"; if (!cur.empty()) { e.add(cur, line); cur.clear(); } break;
			case 5: t += "\\h"; break;
			// the height of a line is that of the style's size
			case 6: t += i % 2 ? "{\\fs40}" : "{\\i1\\fs7}"; if (!cur.empty()) { e.add(cur, line); cur.clear(); } break;
			}
		}
		t += "z"; cur += "z";
		e.add(cur, line);
		e.lines = line + 1;
		check(parse(document(400, 400, "S,Arial,20," + digits(a, 1) + ",4,2,8", "Start, End, Style, Text", "0:00:01.00,0:00:02.00,S," + t)), e);
		vp_cover("end");
		break;
	}
	case 5: {
		static int const xs[4] = {288, 1920, 100, 640}, ys[4] = {288, 1080, 200, 150};
		int p = vp_choice("PlayRes", 4), a = 1 + vp_choice("alignment", 9), margin = vp_choice("margin", 2), size = vp_choice("size", 2), set = vp_choice("reference", 2);
		RawSubtitle base;
		base.horizontal_position.reference = horizontal(a);
		if (set) base.vertical_position.reference = vertical(a);
		if (margin) base.vertical_position.proportional = 0.25;
		if (size) base.font_size.set_proportional(0.05f);
		ll l = vp_range("left", 0, 200);
		e.x = xs[p]; e.y = ys[p]; e.alignment = set ? a : a % 3 ? a % 3 : 3; e.l = (double) l; e.r = 12; e.v = margin ? 0.25 * e.y : 0; e.size = size ? 0.05 * e.y : 72; e.lines = 3;
		e.add("p", 0); e.add("q", 1); e.add("r", 2);
		check(parse_line(base, "p\\nq\\Nr", SSAReader::Context(e.x, e.y, Colour(1, 1, 1), (int) l, 12)), e);
		vp_cover("end");
		break;
	}
	}
}
