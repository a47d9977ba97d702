//@ src colour.cc effect.cc exceptions.cc font_size.cc horizontal_position.cc iso6937.cc iso6937_tables.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc stl_binary_reader.cc stl_binary_tables.cc stl_binary_writer.cc stl_util.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc web_vtt_reader.cc
//@ case 0 SubRip: markup and order :: 3 cues with each start time of 3 and 8 kinds of text [quick=150]
//@ case 1 any character :: each character of ISO 6937, italic or not, from SubRip, WebVTT and SSA [quick=100]
//@ case 2 times :: milliseconds any of 0..999 (hundredths from SSA) in the start or the end, at each frame rate, from SubRip, WebVTT and SSA [quick=100]
//@ case 3 SSA: alignment and lines :: alignment of the style 1..9, by \an or not, 1..3 lines, with 5 kinds of override, margins [quick=100]
//@ case 4 WebVTT: documents :: 3 cues of 1..3 lines (or parts of a line) with notes and identifiers between, any order of start times [quick=100]
//@ case 5 EBU STL: read, written and read again :: 3 blocks of 8 kinds of text with rows, styles and colours, each justification, 4 rates [quick=100]
//@ case 6 long documents :: 150 cues from SubRip, WebVTT and SSA, one byte any letter [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ assume cues differ in start or end time; texts are of ISO 6937 characters, whose encoding fits one block
#include "stl.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "collect.h"
#include "exceptions.h"
#include "iso6937_oracle.h"
using namespace sub;

// what a viewer sees
struct Seen {
	ll from, to;					// milliseconds
	std::vector<std::string> text, style;		// of each line; the style of each byte: italic * 2 + underline
	std::vector<double> row;			// of 23, or -1: not examined
	HorizontalReference just;
	Seen (ll f = 0, ll t = 0) : from(f), to(t), just(HORIZONTAL_CENTRE_OF_SCREEN) {}
	Seen& line (double r = -1) { text.push_back(""); style.push_back(""); row.push_back(r); return *this; }
	Seen& run (std::string const& t, int s = 0) { text.back() += t; style.back() += std::string(t.size(), (char) s); return *this; }
};

enum { SRT, VTT, ASS, EBU };

static std::vector<RawSubtitle> read_any (int what, std::string const& doc)
{
	try {
		switch (what) {
		case SRT: return SubripReader(doc).subtitles();
		case VTT: return WebVTTReader(doc).subtitles();
		case ASS: return SSAReader(doc).subtitles();
		case EBU: { std::istringstream s (doc); return STLBinaryReader(s).subtitles(); }
		}
	} catch (std::exception&) {
	}
	vp_fail("a document is refused");
	return std::vector<RawSubtitle>();
}

static void pipeline (int what, std::string const& doc, std::vector<Seen> const& want, float fps = 25)
{
	std::vector<Subtitle> subs = collect<std::vector<Subtitle> >(read_any(what, doc));
	bool ok = true;
	try {
		write_stl_binary(subs, fps, LANGUAGE_ENGLISH, "Title", "", "", "", "", "", "140212", "140213", 1, "GBR", "", "", "", "vp_out.stl");
	} catch (std::exception&) {
		ok = false;
	}
	vp_assert(ok, "subtitles that were read cannot be written");
	if (!ok) vp_stop();
	long n = vp_vfs_size("vp_out.stl");
	vp_assert(n >= 0, "no file is written");
	if (n < 0) vp_stop();
	std::vector<Subtitle> got = collect<std::vector<Subtitle> >(read_any(EBU, std::string((char const*) vp_vfs_data("vp_out.stl"), n)));
	vp_assert(got.size() == want.size(), "the number of subtitles is changed");
	if (got.size() != want.size()) vp_stop();
	All text, style, just, place, time;
	for (size_t i = 0; i < got.size(); ++i) {
		Subtitle const& g = got[i];
		Seen const& w = want[i];
		double d = g.from.all_as_seconds() - (double) w.from / 1000, e = g.to.all_as_seconds() - (double) w.to / 1000, lim = 0.5 / fps + 2e-3;
		time.add((d < lim) & (d > -lim) & (e < lim) & (e > -lim));
		size_t k = 0;
		double last = -1;
		for (size_t j = 0; j < g.lines.size(); ++j) {
			Line const& l = g.lines[j];
			std::string gt, gs;
			for (size_t b = 0; b < l.blocks.size(); ++b) { gt += l.blocks[b].text; gs += std::string(l.blocks[b].text.size(), (char) (l.blocks[b].italic * 2 + l.blocks[b].underline)); }
			if (gt.empty()) continue;
			vp_assert(k < w.text.size(), "a subtitle has too many lines");
			if (k >= w.text.size()) vp_stop();
			vp_assert(l.vertical_position.line && l.vertical_position.lines && *l.vertical_position.lines == 23, "a line is not on a row of the 23");
			double r = l.vertical_position.line.get();
			if (w.row[k] >= 0) place.add((r - w.row[k] < 0.501) & (w.row[k] - r < 0.501));
			place.add(r > last);
			last = r;
			just.add(l.horizontal_position.reference == w.just);
			text.add(vp_str_eq(gt, w.text[k]));
			style.add(vp_str_eq(gs, w.style[k]));
			vp_observe_str(gt); vp_observe_str(gs); vp_observe((uint64_t) r);
			++k;
		}
		vp_assert(k == w.text.size(), "a subtitle has too few lines");
		vp_observe(g.from.milliseconds()); vp_observe(g.to.milliseconds());
	}
	vp_assert(text.v, "the text is changed");
	vp_assert(style.v, "italic or underline is changed");
	vp_assert(place.v, "the vertical position or the order of lines is changed");
	vp_assert(just.v, "the justification is changed");
	vp_assert(time.v, "a time is changed");
}

static std::string stamp (ll ms, char sep) { return digits(ms / 3600000, 2) + ":" + digits(ms / 60000 % 60, 2) + ":" + digits(ms / 1000 % 60, 2) + sep + digits(ms % 1000, 3); }
static std::string srt_cue (int n, ll from, ll to, std::string const& text) { return digits(n, 3) + "\n" + stamp(from, ',') + " --> " + stamp(to, ',') + "\n" + text + "\n\n"; }
static std::string vtt_cue (ll from, ll to, std::string const& text) { return stamp(from, '.') + " --> " + stamp(to, '.') + "\n" + text + "\n\n"; }
static std::string ass_time (ll ms) { return digits(ms / 3600000, 1) + ":" + digits(ms / 60000 % 60, 2) + ":" + digits(ms / 1000 % 60, 2) + "." + digits(ms % 1000 / 10, 2); }
static std::string ass_head (std::string const& more = "2,0,0,0,0,0")
{
	return "[Script Info]\nPlayResX: 288\nPlayResY: 288\n\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Alignment, Italic, Underline, MarginL, MarginR, MarginV\nStyle: Default,Arial,24,&H00FFFFFF," + more + "\n\n[Events]\nFormat: Start, End, Style, Text\n";
}
static std::string ass_line (ll from, ll to, std::string const& text) { return "Dialogue: " + ass_time(from) + "," + ass_time(to) + ",Default," + text + "\n"; }

static std::string utf8 (wchar_t w)
{
	std::string o;
	if (w < 0x80) o += (char) w;
	else if (w < 0x800) { o += (char) (0xc0 | (w >> 6)); o += (char) (0x80 | (w & 0x3f)); }
	else { o += (char) (0xe0 | (w >> 12)); o += (char) (0x80 | ((w >> 6) & 0x3f)); o += (char) (0x80 | (w & 0x3f)); }
	return o;
}

// by start time, those that start together as in the document
static std::vector<Seen> in_order (std::vector<Seen> const& s)
{
	std::vector<Seen> o;
	for (size_t i = 0; i < s.size(); ++i) {
		size_t k = o.size();
		while (k > 0 && o[k - 1].from > s[i].from) --k;
		o.insert(o.begin() + k, s[i]);
	}
	return o;
}

static float const all_fps[4] = {23.976f, 24, 25, 30};

extern "C" void vp_harness ()
{
	std::vector<Seen> want;
	std::string doc;
	switch (vp_case()) {
	case 0: {
		for (int i = 0; i < 3; ++i) {
			ll from = 1000 + 2000 * vp_choice("start", 3), to = from + 400 + 200 * i;
			Seen s (from, to);
			std::string t;
			switch (i < 2 ? vp_choice("text", 8) : 2) {
			case 0: t = "plain"; s.line(0).run("plain"); break;
			case 1: t = "<i>it</i>al"; s.line(0).run("it", 2).run("al"); break;
			case 2: t = "a<u>b</u>c\n<i>second</i>"; s.line(0).run("a").run("b", 1).run("c").line(1).run("second", 2); break;
			case 3: t = "<b>bold</b> x\nthird<font color=\"#ff0000\">red</font>\nlast"; s.line(0).run("bold x").line(1).run("thirdred").line(2).run("last"); break;
			case 4: t = "<i>one\ntwo<u>both</u></i> three"; s.line(0).run("one", 2).line(1).run("two", 2).run("both", 3).run(" three"); break;
			case 5: t = "\xc3\xa9<i>\xc3\xbc</i>\xc5\x81\xe2\x80\xa8" "part"; s.line(0).run("\xc3\xa9").run("\xc3\xbc", 2).run("\xc5\x81").line(1).run("part"); break;
			case 6: t = "<u><i>never closed"; s.line(0).run("never closed", 3); break;
			case 7: t = "a<i> </i>b  c<u>   </u>\n <b> </b>d "; s.line(0).run("a").run(" ", 2).run("b  c").run("   ", 1).line(1).run("  d "); break;
			}
			doc += srt_cue(i + 1, from, to, t);
			want.push_back(s);
		}
		pipeline(SRT, doc, in_order(want));
		vp_cover("end");
		break;
	}
	case 1: {
		static wchar_t all[512];
		int n = 0;
		for (int i = 1; i < 256; ++i) if (iso_oracle::single[i] && i != '\n') all[n++] = iso_oracle::single[i];
		for (int i = 0; i < iso_oracle::npairs; ++i) all[n++] = iso_oracle::pairs[i].w;
		wchar_t w = all[vp_choice("character", n)];
		int what = vp_choice("format", 3), it = vp_choice("italic", 2);
		if ((what == SRT && (w == '<' || w == '{')) || (what == ASS && (w == '{' || w == '\\')) || (what == VTT && it)) vp_stop();
		std::string c = "a" + utf8(w) + "b";
		Seen s (1000, 2000);
		s.line().run(c, it * 2);
		want.push_back(s);
		if (what == SRT) doc = srt_cue(1, 1000, 2000, it ? "<i>" + c + "</i>" : c);
		else if (what == VTT) doc = "WEBVTT\n\n" + vtt_cue(1000, 2000, c);
		else doc = ass_head() + ass_line(1000, 2000, it ? "{\\i1}" + c + "{\\i0}" : c);
		pipeline(what, doc, want);
		vp_cover("end");
		break;
	}
	case 2: {
		int what = vp_choice("format", 3), rate = vp_choice("rate", 4), end = vp_choice("end", 2), block = vp_choice("block", 4);
		ll ms = what == ASS ? vp_range("hundredths", 0, 99) * 10 : vp_range("milliseconds", block * 250, block * 250 + 249);
		if (what == ASS && block) vp_stop();
		ll from = end ? 1234000 : 3723000 + ms, to = end ? 3599000 + ms : 3725000;
		Seen s (from, to);
		s.line().run("text");
		want.push_back(s);
		Seen u (7200000, 7201000);
		u.line().run("next");
		want.push_back(u);
		if (what == SRT) doc = srt_cue(1, from, to, "text") + srt_cue(2, 7200000, 7201000, "next");
		else if (what == VTT) doc = "WEBVTT\n\n" + vtt_cue(from, to, "text") + vtt_cue(7200000, 7201000, "next");
		else doc = ass_head() + ass_line(from, to, "text") + ass_line(7200000, 7201000, "next");
		pipeline(what, doc, want, all_fps[rate]);
		vp_cover("end");
		break;
	}
	case 3: {
		int style = 1 + vp_choice("alignment of the style", 9), an = vp_choice("\\an", 10), lines = 1 + vp_choice("lines", 3), kind = vp_choice("override", 5), margin = vp_choice("margin", 2) * 24;
		int a = an ? an : style;
		Seen s (1000, 2000);
		s.just = a % 3 == 1 ? LEFT_OF_SCREEN : a % 3 == 2 ? HORIZONTAL_CENTRE_OF_SCREEN : RIGHT_OF_SCREEN;
		std::string t = an ? std::string("{\\an") + (char) ('0' + an) + "}" : "";
		for (int k = 0; k < lines; ++k) {
			// a line's height is 1.2 * 24 / 288, a tenth of the screen
			double m = margin / 288.0, f = a > 6 ? m + 0.1 * k : a < 4 ? 1 - m - 0.1 * (lines - 1 - k) : 0.5 + 0.1 * (k - lines / 2.0);
			s.line(f * 23);
			std::string x (1, (char) ('p' + k));
			if (k) t += k == 1 ? "\\N" : "\\n";
			switch (kind) {
			case 0: t += x; s.run(x); break;
			case 1: t += x + "{\\i1}" + x + "{\\i0}" + x; s.run(x).run(x, 2).run(x); break;
			case 2: t += "{\\u1}" + x + "{\\b1}" + x; s.run(x + x, 1); break;
			case 4: t += x + "{\\i1} {\\i0}" + x; s.run(x).run(" ", 2).run(x); break;
			case 3: t += "{\\i1\\u1}" + x + "{\\i0}" + x + "{\\u0}" + x; s.run(x, 3).run(x, 1).run(x); break;
			}
		}
		want.push_back(s);
		doc = ass_head(digits(style, 1) + ",0,0,0,0," + digits(margin, 2)) + ass_line(1000, 2000, t);
		pipeline(ASS, doc, want);
		vp_cover("end");
		break;
	}
	case 4: {
		doc = "WEBVTT - title\n\n";
		for (int i = 0; i < 3; ++i) {
			ll from = 1000 + 2000 * vp_choice("start", 3), to = from + 400 + 200 * i;
			Seen s (from, to);
			int n = 1 + vp_choice("lines", 3), before = vp_choice("before", i ? 3 : 1);
			std::string t;
			for (int j = 0; j < n; ++j) {
				std::string x = std::string("cue") + (char) ('a' + i) + (char) ('0' + j) + "<i>";
				if (j) t += j == 1 && before == 1 ? "\xe2\x80\xa8" : "\n";
				t += x;
				s.line(j).run(x);
			}
			if (before == 1) doc += "NOTE some\nnote\n\n";
			if (before == 2) doc += "identifier\n";
			doc += vtt_cue(from, to, t);
			want.push_back(s);
		}
		pipeline(VTT, doc, in_order(want));
		vp_cover("end");
		break;
	}
	case 5: {
		static char const* const dfc[4] = {"STL23.01", "STL24.01", "STL25.01", "STL30.01"};
		static int const fps[4] = {24, 24, 25, 30};
		int rate = vp_choice("rate", 4);
		doc = stl_gsi(3, dfc[rate]);
		static HorizontalReference const refs[4] = {HORIZONTAL_CENTRE_OF_SCREEN, LEFT_OF_SCREEN, HORIZONTAL_CENTRE_OF_SCREEN, RIGHT_OF_SCREEN};
		for (int i = 0; i < 3; ++i) {
			Tti b;
			for (int k = 0; k < 4; ++k) b.from[k] = b.to[k] = 0;
			int f = (int) (i == 1 ? vp_range("frames", 0, (rate == 0 ? 23 : fps[rate] - 1)) : 3 * i);
			b.from[2] = 10 + i; b.to[2] = 20 + i; b.from[3] = f; b.to[3] = i;
			double r = all_fps[rate];
			b.vp = 3 + i * 4;
			b.jc = i < 2 ? vp_choice("justification", 4) : 3;
			Seen s;
			s.from = (ll) ((10 + i) * 1000) + (ll) vp_ite(1, (ll) ((double) f * 1000 / r + 0.5), 0);
			s.to = (ll) ((20 + i) * 1000) + (ll) (i * 1000 / r + 0.5);
			s.just = refs[b.jc];
			switch (vp_choice("text", i < 2 ? 8 : 2) + (i == 2 ? 3 : 0)) {
			case 0: b.text = "plain"; s.line(b.vp).run("plain"); break;
			case 1: b.text = "\x80it\x81" "al"; s.line(b.vp).run("it", 2).run("al"); break;
			case 2: b.text = "a\x82" "b\x83" "c\x8a\x80" "sec"; s.line(b.vp).run("a").run("b", 1).run("c").line(b.vp + 1).run("sec", 2); break;
			case 3: b.text = "\x01red\x07white\x8a\x8ago"; s.line(b.vp).run("redwhite").line(b.vp + 2).run("go"); break;
			case 4: b.text = "\x80" "on\x8ato\x82" "both\x8a\x81" "un"; s.line(b.vp).run("on", 2).line(b.vp + 1).run("to", 2).run("both", 3).line(b.vp + 2).run("un", 1); break;
			case 5: b.text = "\xc2" "e\xc8" "u\xf9"; s.line(b.vp).run("\xc3\xa9\xc3\xbc\xc3\xb8"); break;
			case 6: b.text = "\x80\x82never off"; s.line(b.vp).run("never off", 3); break;
			case 7: b.text = "x\x80\x81y\x06\x82z\x83"; s.line(b.vp).run("xy").run("z", 1); break;
			}
			doc += b.bytes();
			want.push_back(s);
		}
		pipeline(EBU, doc, want, all_fps[rate]);
		vp_cover("end");
		break;
	}
	case 6: {
		int what = vp_choice("format", 3);
		doc = what == VTT ? "WEBVTT\n\n" : what == ASS ? ass_head() : "";
		for (int i = 0; i < 150; ++i) {
			// every other pair of cues is the wrong way round
			int k = i % 4 == 0 ? i + 1 : i % 4 == 1 ? i - 1 : i;
			ll from = k * 1000, to = k * 1000 + 480;
			Seen s (from, to);
			std::string x = std::string(1 + i % 40, (char) ('a' + i % 26));
			if (i == 77) x[0] = (char) vp_char("letter", "ABCDEFGH", 8);
			std::string y = "\xc3\xa9t\xc3\xa9";
			s.line().run(x);
			if (i % 3 == 0) s.line().run(y, what == VTT ? 0 : i % 2 * 2);
			std::string open = i % 2 && what != VTT ? what == SRT ? "<i>" : "{\\i1}" : "", t = x + (i % 3 == 0 ? (what == ASS ? "\\N" : "\n") + open + y : "");
			doc += what == SRT ? srt_cue(i, from, to, t) : what == VTT ? vtt_cue(from, to, t) : ass_line(from, to, t);
			want.push_back(s);
		}
		pipeline(what, doc, in_order(want));
		vp_cover("end");
		break;
	}
	}
}
