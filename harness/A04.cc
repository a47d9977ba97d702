//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subtitle.cc util.cc vertical_position.cc effect.cc
//@ case 0 which lines count :: 4 lines (5 in the thorough tier) out of 9 kinds: dialogues, comments, blank lines, Comment: events, other event types, other sections with dialogues in them, [Events] again, with the usual ten columns or four [quick=150]
//@ case 1 times :: hours of 1..3 digits, minutes, seconds and centiseconds, each in turn any value, for the start or the end [quick=100]
//@ case 2 columns :: 10 columns rotated and reversed with Text last, spaces or not, one value of the ignored columns any byte [quick=100]
//@ case 3 text with commas and colons :: 6 bytes each any of , : ; space a " ( = after and before text, with 0..3 columns before [quick=100]
//@ case 4 PlayResX and PlayResY :: each absent or any of 1..2500, in either order, before or after other headers, in a section before or after the styles or in two, other sections having values of their own [quick=100]
//@ case 5 line endings, byte-order mark, spaces, section names :: every combination of 8 options, two text bytes any [quick=100]
//@ case 6 long documents :: 60 events of 1..4 runs with texts up to 700 characters [quick=60]
//@ case 7 any text :: 3 bytes (4 in the thorough tier) any but \ { and the ends of lines [quick=60]
//@ case 8 several Format lines :: 3 events, each of [Events] again or not, a new Format line of 4 column orders or none, a byte of each text any, styles with their own two Format lines [quick=100]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ cover 8: end
//@ assume texts do not begin or end with white space, and bytes are not NUL
#include "ssa.h"

struct Want { std::string text; ll from, to; };

static int at (Time const& t, ll ms)
{
	return BOTH((ll) t.hours() * 3600 + t.minutes() * 60 + t.seconds() == ms / 1000, t.milliseconds() == ms % 1000);
}

static void check (std::vector<RawSubtitle> const& got, std::vector<Want> const& want)
{
	vp_assert(got.size() == want.size(), "the number of runs is wrong");
	if (got.size() != want.size()) vp_stop();
	All text, time;
	for (size_t i = 0; i < got.size(); ++i) {
		text.add(vp_str_eq(got[i].text, want[i].text));
		time.add(BOTH(at(got[i].from, want[i].from), at(got[i].to, want[i].to)));
		vp_observe_str(got[i].text);
	}
	vp_assert(text.v, "a run has the wrong text");
	vp_assert(time.v, "a run has the wrong times");
}

static Want w (std::string const& t, ll f, ll o) { Want x = {t, f, o}; return x; }
static std::string const HEAD = "[Script Info]\nTitle: test\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: Default,Arial,20\n\n";
static std::string const EVENTS = "[Events]\nFormat: Layer, Start, End, Text\n";

// a text byte that is not white space to trim
static char solid (char const* name)
{
	char c = text_byte(name);
	vp_assume((c != ' ') & (c != '\t') & (c != '\v') & (c != '\f'));
	return c;
}

extern "C" void vp_harness ()
{
	std::vector<Want> want;
	switch (vp_case()) {
	case 0: {
		// the usual ten columns, or four
		int usual = vp_choice("columns", 2);
		std::string const FORMAT = usual ? "[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n" : EVENTS, MORE = usual ? "Default,,0,0,0,," : "";
		std::string doc = HEAD + FORMAT;
		bool events = true;
		for (int i = 0; i < 4 + vp_tier(); ++i) {
			char c = solid("byte");
			std::string t = std::string(1, (char) ('p' + i)) + c, d = "Dialogue: 0,0:00:0" + digits(i, 1) + ".50,0:00:09.00," + MORE;
			switch (vp_choice("line", 9)) {
			case 0: doc += d + t + "\n"; if (events) want.push_back(w(t, 1000 * i + 500, 9000)); break;
			case 1: doc += ";" + t + "\n"; break;
			case 2: doc += "\n"; break;
			case 3: doc += "Comment: 0,0:00:00.00,0:00:01.00," + MORE + t + "\n"; break;
			case 4: doc += "Picture: 0,0:00:00.00,0:00:01.00," + MORE + t + "\n"; break;
			case 5: doc += "[Fonts]\nfontname: x.ttf\n" + std::string("no separator here\n") + d + t + "\n"; events = false; break;
			case 6: doc += std::string("[Aegisub Extradata]\n") + "Data: 1\n"; events = false; break;
			case 7: doc += FORMAT + "; " + d + t + "\n"; events = true; break;
			case 8: doc += "[Script Info]\n" + d + t + "\nCollisions: Normal\n"; events = false; break;
			}
		}
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 1: {
		int which = vp_choice("field", 4), end = vp_choice("end", 2), other = vp_choice("others", 3);
		static ll const others[3][4] = {{0, 0, 0, 0}, {1, 2, 3, 4}, {99, 59, 59, 99}};
		ll v[4];
		std::string t[4];
		for (int i = 0; i < 4; ++i) { v[i] = others[other][i]; t[i] = digits(v[i], i ? 2 : other == 2 ? 2 : 1); }
		if (which == 0) v[0] = number("hours", 0, 249, t[0]);
		else { v[which] = vp_range("value", 0, which == 3 ? 99 : 59); t[which] = digits(v[which], 2); }
		std::string stamp = t[0] + ":" + t[1] + ":" + t[2] + "." + t[3];
		ll ms = ((v[0] * 60 + v[1]) * 60 + v[2]) * 1000 + v[3] * 10;
		std::string doc = HEAD + EVENTS + "Dialogue: 0," + (end ? "0:00:00.07," + stamp : stamp + ",9:59:59.90") + ",text\n";
		want.push_back(w("text", end ? 70 : ms, end ? ms : 35999900));
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 2: {
		char const* names[9] = {"Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect"};
		std::string values[9] = {"0", "0:00:01.20", "0:00:03.40", "Default", "Someone", "0", "0", "0", "Scroll up;1;2"};
		int rot = vp_choice("rotation", 9), rev = vp_choice("reversed", 2), space = vp_choice("spaces", 3), sym = vp_choice("symbolic", 4), skip = vp_choice("left out", 4);
		char c = text_byte("byte");
		vp_assume((c != ',') & (c != '\\'));
		if (sym == 1) values[0] += c;
		if (sym == 2) values[4] = std::string(1, c);
		if (sym == 3) values[8] = std::string("x") + c + "y";
		std::string f = "Format:", d = "Dialogue:";
		bool first = true;
		for (int i = 0; i < 9; ++i) {
			int k = (i + rot) % 9;
			if (rev) k = 8 - k;
			if ((skip == 1 && k == 0) || (skip == 2 && k >= 4) || (skip == 3 && k == 3)) continue;
			f += (first ? space == 1 ? "" : " " : space ? "," : ", ") + std::string(names[k]);
			d += (first ? " " : space == 2 ? " , " : ",") + values[k];
			first = false;
		}
		std::string doc = HEAD + "[Events]\n" + f + ", Text\n" + d + ",one, two\n" + d + ",three\n";
		want.push_back(w("one, two", 1200, 3400));
		want.push_back(w("three", 1200, 3400));
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 3: {
		int columns = vp_choice("columns", 4);
		std::string t = "p";
		for (int i = 0; i < 6; ++i) t += (char) vp_char("byte", ",:; a\"(=", 8);
		t += vp_choice("comma last", 2) ? "," : "q";
		std::string f = "Start, End", d = "0:00:01.00,0:00:02.00,";
		for (int i = 0; i < columns; ++i) { f += ", X" + digits(i, 1); d += "x" + digits(i, 1) + ","; }
		check(parse(HEAD + "[Events]\nFormat: " + f + ", Text\nDialogue: " + d + t + "\nDialogue: " + d + ",,\n"), (want.push_back(w(t, 1000, 2000)), want.push_back(w(",,", 1000, 2000)), want));
		vp_cover("end");
		break;
	}
	case 4: {
		int have = vp_choice("present", 4), order = vp_choice("order", 2), other = vp_choice("others", 5), which = vp_choice("symbolic", 2);
		std::string x = "640", y = "480";
		ll rx = 640, ry = 480;
		if (which == 0 && (have & 1)) rx = number("PlayResX", 1, 2500, x);
		else if (which == 1 && (have & 2)) ry = number("PlayResY", 1, 2500, y);
		std::string lx = have & 1 ? "PlayResX: " + x + "\n" : "", ly = have & 2 ? "PlayResY:" + y + "\n" : "";
		if (!(have & 1)) rx = 288;
		if (!(have & 2)) ry = 288;
		std::string info = "[Script Info]\n" + std::string(other == 1 ? "Title: PlayResX: 5\n; PlayResY: 7\n" : "") + (order ? lx + ly : ly + lx) + (other == 2 ? "PlayDepth: 0\nPlayResZ: 9\nTimer: 100.0000\n" : "");
		std::string styles = "[V4 Styles]\nFormat: Name, Fontsize, Alignment, MarginL, MarginV\nStyle: Default,20,1,30,40\n";
		if (other == 3) styles += "[Aegisub Project Garbage]\nPlayResX: 5\nPlayResY: 7\n";
		// the section comes after the styles, or its second half does
		std::string begin = other == 4 ? order ? styles + info : "[Script Info]\nTitle: x\n" + lx + styles + "[Script Info]\n" + ly : info + styles;
		std::vector<RawSubtitle> got = parse(begin + "[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Default,text\nDialogue: 0:00:02.00,0:00:03.00,Default,{\\pos(100,50)\\fs10}text\n");
		vp_assert(got.size() == 2, "the number of runs is wrong");
		if (got.size() != 2) vp_stop();
		vp_assert(about(got[0].horizontal_position.proportional, 30.0 / rx) && about(got[0].vertical_position.proportional.get(), 40.0 / ry), "a margin is not in proportion to the resolution");
		vp_assert(about(got[0].font_size.proportional().get(), 20.0 / ry) && about(got[1].font_size.proportional().get(), 10.0 / ry), "a font size is not in proportion to the resolution");
		vp_assert(about(got[1].horizontal_position.proportional, 100.0 / rx) && about(got[1].vertical_position.proportional.get(), 90.0 / ry), "a position is not in proportion to the resolution");
		vp_cover("end");
		break;
	}
	case 5: {
		int o = vp_choice("options", 256);
		std::string nl = o & 1 ? "\r\n" : "\n", sp = o & 2 ? "  " : "", gap = o & 4 ? "" : " ", blank = o & 8 ? nl : "";
		std::string t1 = std::string("p") + solid("byte"), t2 = std::string(1, solid("byte")) + "q";
		std::string doc = (o & 16 ? "\xef\xbb\xbf" : "") + std::string("[Script Info]") + nl + "; a comment: here" + nl + "Title:" + gap + "x" + nl + blank;
		doc += sp + (o & 32 ? "[V4 Styles]" : "[V4+ Styles]") + nl + "Format:" + gap + "Name,Fontsize" + nl + "Style:" + gap + "Default,20" + sp + nl + blank;
		doc += "[Events]" + sp + nl + (o & 64 ? "; Dialogue: 0:00:00.00,0:00:01.00,no" + nl : "") + sp + "Format:" + gap + "Start,End,Text" + nl;
		doc += sp + "Dialogue:" + gap + "0:00:01.00,0:00:02.00," + t1 + sp + nl + blank + "Dialogue:" + gap + "0:00:03.00, 0:00:04.00 ," + t2 + (o & 128 ? "" : nl);
		want.push_back(w(t1, 1000, 2000));
		want.push_back(w(t2, 3000, 4000));
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 6: {
		std::string doc = HEAD + EVENTS;
		int k = vp_choice("event", 4) * 19;
		for (int i = 0; i < 60; ++i) {
			ll cs = (ll) i * 6123 % 360000;
			std::string d = digits(cs / 360000, 1) + ":" + digits(cs / 6000 % 60, 2) + ":" + digits(cs / 100 % 60, 2) + "." + digits(cs % 100, 2);
			doc += "Dialogue: 0," + d + "," + d + ",";
			for (int j = 0; j <= i % 4; ++j) {
				std::string t = std::string(i * 13 % 700 + 1, (char) ('a' + (i + j) % 26));
				if (i == k && j == 0) t[0] = solid("byte");
				doc += (j ? j % 2 ? "\\N" : "{\\i1}" : "") + t;
				want.push_back(w(t, cs * 10, cs * 10));
			}
			doc += "\n";
		}
		check(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 8: {
		static char const* const formats[4] = {"Start, End, Style, Text", "End, Style, Start, Text", "Layer, Style, Start, Name, End, Text", "Style, MarginL, Start, End, Effect, MarginV, Text"};
		std::string doc = "[Script Info]\nPlayResY: 100\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize\nStyle: A,x,50\n";
		if (vp_choice("styles again", 2)) doc += "[V4+ Styles]\n";
		doc += "Format: Fontsize, Name\nStyle: 25,B\n[Events]\nFormat: Start, Text\n";
		int f = -1;
		std::vector<double> sizes;
		for (int i = 0; i < 3; ++i) {
			char c = solid("byte");
			std::string t = std::string(1, (char) ('p' + i)) + c + ", r", start = "0:00:0" + digits(i + 1, 1) + ".00", end = "0:00:0" + digits(i + 4, 1) + ".50", style = i == 1 ? "A" : "B";
			int k = vp_choice("format", f < 0 ? 4 : 5);
			if (vp_choice("section", 2)) doc += k % 2 ? "[Fonts]\nfontname: y\n[Events]\n" : "[Events]\n";
			if (k < 4) { f = k; doc += std::string("Format: ") + formats[f] + "\n"; }
			doc += "Dialogue: ";
			switch (f) {
			case 0: doc += start + "," + end + "," + style; break;
			case 1: doc += end + "," + style + "," + start; break;
			case 2: doc += "0," + style + "," + start + ",N," + end; break;
			case 3: doc += style + ",0," + start + "," + end + ",,0"; break;
			}
			doc += "," + t + "\n";
			want.push_back(w(t, 1000 * (i + 1), 1000 * (i + 4) + 500));
			sizes.push_back(style == "A" ? 0.5 : 0.25);
		}
		std::vector<RawSubtitle> got = parse(doc);
		check(got, want);
		for (size_t i = 0; i < got.size(); ++i) vp_assert(got[i].font_size.proportional() && about(got[i].font_size.proportional().get(), sizes[i]), "an event does not have its style");
		vp_cover("end");
		break;
	}
	case 7: {
		std::string t = std::string(1, solid("byte"));
		for (int i = 0; i < 2 + vp_tier(); ++i) t += text_byte("byte");
		t += ".";
		want.push_back(w(t, 1000, 2000));
		check(parse(HEAD + EVENTS + "Dialogue: 0,0:00:01.00,0:00:02.00," + t + "\n"), want);
		vp_cover("end");
		break;
	}
	}
}
