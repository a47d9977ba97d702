//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc stl_text_reader.cc sub_time.cc subtitle.cc util.cc vertical_position.cc effect.cc
//@ case 0 times and spacing :: 0..2 spaces around each comma, each of the eight time fields in turn any of 0..249 or 00..99 [quick=100]
//@ case 1 toggles and line breaks :: a text of 6 characters (8 in the thorough tier) out of | ^ B I U x comma and space, after a p or not, and another subtitle after it [quick=150]
//@ case 2 $ variables :: 3 lines (4 in the thorough tier), each a variable (spaces around = or not, True, False, true or another value) or a subtitle; sizes any of 1..200, one byte of the font name any [quick=150]
//@ case 3 lines that are not subtitles :: 3 of 15 kinds of comments, unrecognised lines and variables between subtitles, one byte of each any [quick=150]
//@ case 4 line endings :: LF or CRLF, spaces at either end of the lines, with or without a final newline, blank lines, two text bytes any [quick=100]
//@ case 5 any text :: 3 bytes (5 in the thorough tier) any but ^ | and the ends of lines [quick=60]
//@ case 6 long documents :: 60 subtitles of up to 5 lines (one of 40) and 300 characters, each with toggles [quick=60]
//@ case 7 stray carets :: a text ending in a caret or having one followed by any other byte, between other subtitles [quick=60]
//@ case 8 values with an equals sign :: a font name with an equals sign and any byte after it [quick=30]
//@ cover 0: end
//@ cover 1: toggled, broken
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ cover 8: end
//@ assume ^ is followed by B, I or U (of other texts only what comes before the ^ and the other subtitles are examined); a style toggled is toggled back before the end of its subtitle, or the next subtitle's style is not examined; texts end with something other than white space
#include "common.h"
#include "stl_text_reader.h"
#include "exceptions.h"
using namespace sub;

struct Want {
	std::string text;
	ll from[4], to[4];
	int line;
	int b, i, u;
	bool has_font;
	std::string font;
	bool has_size;
	ll size;
	bool style;
	Want () : line(0), b(0), i(0), u(0), has_font(false), has_size(false), size(0), style(true) { for (int k = 0; k < 4; ++k) { from[k] = k; to[k] = k + 1; } }
};

static std::vector<RawSubtitle> parse (std::string const& doc)
{
	try {
		std::istringstream s (doc);
		return STLTextReader(s).subtitles();
	} catch (std::exception& e) {
		vp_fail("a document is refused");
	}
	return std::vector<RawSubtitle>();
}

static int is (Time const& t, ll const* v)
{
	int r = BOTH((ll) t.hours() * 3600 + t.minutes() * 60 + t.seconds() == v[0] * 3600 + v[1] * 60 + v[2], t == Time::from_hmsf((int) v[0], (int) v[1], (int) v[2], (int) v[3]));
	return r;
}

static void check (std::vector<RawSubtitle> const& got, std::vector<Want> const& want)
{
	vp_assert(got.size() == want.size(), "the number of runs is wrong");
	if (got.size() != want.size()) vp_stop();
	All text, time, place, style, font;
	for (size_t i = 0; i < got.size(); ++i) {
		RawSubtitle const& g = got[i];
		Want const& w = want[i];
		text.add(vp_str_eq(g.text, w.text));
		time.add(BOTH(is(g.from, w.from), is(g.to, w.to)));
		place.add(g.vertical_position.line && g.vertical_position.line.get() == w.line && g.vertical_position.reference && g.vertical_position.reference.get() == TOP_OF_SUBTITLE);
		if (w.style) style.add(((int) g.bold == w.b) & ((int) g.italic == w.i) & ((int) g.underline == w.u));
		font.add(bool(g.font) == w.has_font && (!w.has_font || vp_str_eq(g.font.get(), w.font)));
		font.add(bool(g.font_size.points()) == w.has_size && (!w.has_size || g.font_size.points().get() == w.size));
		vp_observe_str(g.text);
		vp_observe(g.vertical_position.line.get());
	}
	vp_assert(text.v, "a run has the wrong text");
	vp_assert(time.v, "a run has the wrong times");
	vp_assert(place.v, "a run is on the wrong line");
	vp_assert(style.v, "a run has the wrong style");
	vp_assert(font.v, "a run has the wrong font");
}

static char text_byte (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != '\n') & (c != '^') & (c != '|') & (c != 0));
	return c;
}
static char solid (char const* name)
{
	char c = text_byte(name);
	vp_assume((c != ' ') & ((c < '\t') | (c > '\r')));
	return c;
}
static std::string const TIMES = "00:01:02:03,01:02:03:04,";

extern "C" void vp_harness ()
{
	std::vector<Want> want;
	Want w;
	std::string doc;
	switch (vp_case()) {
	case 0: {
		int sp = vp_choice("spaces", 16), field = vp_choice("field", 8), kind = vp_choice("width", 4);
		std::string f[8];
		static ll const v0[8] = {0, 59, 9, 24, 12, 0, 58, 10};
		for (int i = 0; i < 8; ++i) {
			ll v = v0[i];
			if (i == field) {
				v = kind == 0 ? vp_range("value", 0, 9) : kind == 1 ? vp_range("value", 0, 99) : kind == 2 ? vp_range("value", 10, 99) : vp_range("value", 100, 249);
				f[i] = digits(v, kind == 0 ? 1 : kind == 3 ? 3 : 2);
			} else {
				f[i] = digits(v, 2);
			}
			(i < 4 ? w.from[i] : w.to[i - 4]) = v;
		}
		std::string text = std::string(sp & 8 ? " " : "") + "text";
		doc = f[0] + ":" + f[1] + ":" + f[2] + ":" + f[3] + (sp & 1 ? " " : "") + "," + (sp & 2 ? "  " : "") + f[4] + ":" + f[5] + ":" + f[6] + ":" + f[7] + (sp & 4 ? " " : "") + "," + text + "\n";
		w.text = text;
		want.push_back(w);
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 1: {
		std::string t = vp_choice("start", 2) ? "p" : "";
		for (int i = 0; i < (vp_tier() ? 8 : 6); ++i) t += (char) vp_char("character", "|^BIUx, ", 8);
		t += "q";
		std::string cur;
		bool toggled = false, broken = false;
		for (int i = 0; i < 4; ++i) { static ll const f[4] = {0, 1, 2, 3}, o[4] = {1, 2, 3, 4}; w.from[i] = f[i]; w.to[i] = o[i]; }
		for (size_t i = 0; i < t.size(); ++i) {
			if (t[i] == '|' || t[i] == '^') {
				if (!cur.empty()) { w.text = cur; want.push_back(w); cur.clear(); }
				if (t[i] == '|') { ++w.line; broken = true; continue; }
				++i;
				if (i < t.size() && t[i] == 'B') w.b = !w.b;
				else if (i < t.size() && t[i] == 'I') w.i = !w.i;
				else if (i < t.size() && t[i] == 'U') w.u = !w.u;
				else vp_stop();
				toggled = true;
			} else {
				cur += t[i];
			}
		}
		if (!cur.empty()) { w.text = cur; want.push_back(w); }
		Want n;
		n.text = "next";
		n.style = !(w.b || w.i || w.u);
		for (int i = 0; i < 4; ++i) { n.from[i] = i + 5; n.to[i] = i + 6; }
		want.push_back(n);
		check(parse(TIMES + t + "\n05:06:07:08 , 06:07:08:09 ,next\n"), want);
		if (toggled) vp_cover("toggled");
		if (broken) vp_cover("broken");
		break;
	}
	case 2: {
		for (int i = 0; i < 4; ++i) { static ll const f[4] = {0, 1, 2, 3}; w.from[i] = f[i]; w.to[i] = f[i] + 1; }
		int eq = vp_choice("spaces", 3), subs = 0;
		std::string e = eq == 0 ? " = " : eq == 1 ? "=" : "  =  ";
		for (int i = 0; i < (vp_tier() ? 4 : 3); ++i) {
			switch (vp_choice("line", 4) + 3) {
			case 3: {
				static char const* const V[] = {"True", "False", "None", "true"};
				int which = vp_choice("style", 3), value = vp_choice("value", 4);
				(which == 0 ? w.b : which == 1 ? w.i : w.u) = value == 0;
				doc += std::string(which == 0 ? "$Bold" : which == 1 ? "$Italic" : "$Underlined") + e + V[value] + "\n";
				break;
			}
			case 4: {
				int n = vp_choice("digits", 3) + 1;
				ll v = n == 1 ? vp_range("size", 1, 9) : n == 2 ? vp_range("size", 10, 99) : vp_range("size", 100, 200);
				doc += "$FontSize" + e + digits(v, n) + "\n"; w.has_size = true; w.size = v;
				break;
			}
			case 5: { char c = (char) vp_byte("byte"); vp_assume((c != 0) & (c != '\n') & (c != '=') ); w.has_font = true; w.font = std::string("F") + c + "x"; doc += "$FontName" + e + w.font + "\n"; break; }
			case 6: w.text = std::string(1, (char) ('p' + subs++)); doc += TIMES + w.text + "\n"; want.push_back(w); break;
			}
		}
		doc += TIMES + "^B^Iend^B^I\n";
		w.text = "end";
		w.b = !w.b; w.i = !w.i;
		want.push_back(w);
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 3: {
		for (int i = 0; i < 4; ++i) { static ll const f[4] = {0, 1, 2, 3}; w.from[i] = f[i]; w.to[i] = f[i] + 1; }
		for (int i = 0; i < 3; ++i) {
			char c = solid("byte");
			std::string s (1, c);
			switch (vp_choice("kind", 15)) {
			case 0: doc += "//" + s + "\n"; break;
			case 1: doc += "//" + TIMES + s + "\n"; break;
			case 2: doc += "  // " + TIMES + s + "\n"; break;
			case 3: vp_assume(c != ','); doc += "just" + s + "text\n"; break;
			case 4: doc += "one, comma\n"; break;
			case 5: vp_assume((c != ',') & ((c < '0') | (c > '9'))); doc += "00:01:02:0" + s + " , 01:02:03:04 , no\n"; break;
			case 6: doc += "00:01:02 , 01:02:03:04 , no\n"; break;
			case 7: doc += "00:01:02:03 , 01:02:03:04:05 , no\n"; break;
			case 8: doc += "$Nothing = " + s + "\n"; break;
			case 9: vp_assume(c != '='); doc += "$Bold " + s + "\n"; break;
			case 10: doc += "\n"; break;
			case 11: doc += ",,,,\n"; break;
			case 12: doc += "00:01:02:03 , 01:02:03:04\n"; break;
			case 13: doc += TIMES + "\n"; break;
			case 14: vp_assume(c != '='); doc += "$Bold = True = " + s + "\n"; break;
			}
			if (i < 2) { w.text = std::string(1, (char) ('p' + i)) + "|x"; doc += TIMES + w.text + "\n"; w.text = std::string(1, (char) ('p' + i)); want.push_back(w); w.text = "x"; w.line = 1; want.push_back(w); w.line = 0; }
		}
		doc += TIMES + "end";
		w.text = "end";
		want.push_back(w);
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 4: {
		for (int i = 0; i < 4; ++i) { static ll const f[4] = {0, 1, 2, 3}; w.from[i] = f[i]; w.to[i] = f[i] + 1; }
		int o = vp_choice("options", 32);
		std::string nl = o & 1 ? "\r\n" : "\n", before = o & 2 ? "  " : "", after = o & 4 ? " \t" : "";
		std::string t1 = std::string("p") + solid("byte"), t2 = std::string("q") + solid("byte");
		doc = before + "$Bold = True" + after + nl + (o & 8 ? nl : "") + before + TIMES + t1 + after + nl + (o & 8 ? nl + nl : "") + "$Bold = False" + nl + before + TIMES + t2 + after + (o & 16 ? nl : "");
		w.text = t1; w.b = 1; want.push_back(w);
		w.text = t2; w.b = 0; want.push_back(w);
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 5: {
		for (int i = 0; i < 4; ++i) { static ll const f[4] = {0, 1, 2, 3}; w.from[i] = f[i]; w.to[i] = f[i] + 1; }
		std::string t;
		for (int i = 0; i < (vp_tier() ? 5 : 3); ++i) t += text_byte("byte");
		t += ".";
		w.text = t;
		want.push_back(w);
		check(parse(TIMES + t + "\n"), want);
		vp_cover("end");
		break;
	}
	case 6: {
		int k = vp_choice("subtitle", 4) * 19;
		for (int i = 0; i < 60; ++i) {
			w = Want();
			w.from[0] = i / 10; w.from[1] = i; w.from[2] = 59 - i; w.from[3] = i % 25;
			for (int j = 0; j < 4; ++j) w.to[j] = w.from[j] + 1;
			for (int j = 0; j < 8; ++j) doc += digits(j < 4 ? w.from[j] : w.to[j - 4], 2) + (j == 3 || j == 7 ? " , " : ":");
			doc.erase(doc.size() - 1);
			int flags[3] = {0, 0, 0};
			for (int j = 0; j < (i == 30 ? 40 : i % 5 + 1); ++j) {
				std::string t ((i * 7 + j * 31) % 300 + 1, (char) ('a' + (i + j) % 26));
				if (i == k && j == 0) t[0] = solid("byte");
				int f = (i + j) % 3;
				doc += std::string(j ? "|" : "") + "^" + "BIU"[f] + t;
				flags[f] = !flags[f];
				w.line = j; w.b = flags[0]; w.i = flags[1]; w.u = flags[2]; w.text = t;
				want.push_back(w);
			}
			for (int f = 0; f < 3; ++f) if (flags[f]) doc += std::string("^") + "BIU"[f];
			doc += "\n";
		}
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 7: {
		std::string t = "some^";
		if (vp_choice("at the end", 2) == 0) { t += solid("byte"); vp_assume(t[5] != 'B' && t[5] != 'I' && t[5] != 'U'); }
		std::vector<RawSubtitle> got = parse(TIMES + "first\n" + TIMES + t + "\n" + TIMES + "next\n");
		vp_assert(got.size() >= 3, "subtitles around a stray caret are lost");
		if (got.size() < 3) vp_stop();
		vp_assert(got[0].text == "first" && got.back().text == "next", "subtitles around a stray caret are changed");
		vp_assert(got[1].text.compare(0, 4, "some") == 0, "the text before a stray caret is lost");
		vp_observe(got.size());
		vp_cover("end");
		break;
	}
	case 8: {
		/* the whole value, or nothing if the line is not recognised; never a part of it */
		static char const* const SEP[] = {"=", " =", "= ", " = "};
		std::string sep = SEP[vp_choice("separator", 4)];
		char c = solid("byte");
		vp_assume(c != '=');
		std::string value = std::string("A") + sep + c;
		std::vector<RawSubtitle> got = parse("$FontName = Before\n$FontName = " + value + "\n" + TIMES + "x\n");
		vp_assert(got.size() == 1 && vp_str_eq(got[0].text, "x"), "a subtitle after a value with = is lost");
		vp_assert(got.size() == 1 && got[0].font && (vp_str_eq(got[0].font.get(), "Before") | vp_str_eq(got[0].font.get(), value)), "a value with = is taken in part");
		vp_cover("end");
		break;
	}
	}
}
