//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc effect.cc web_vtt_reader.cc
//@ case 0 SubRip: where the error is :: 0..3 good cues of 0..2 lines and 0..2 blank lines before it, LF or CRLF, from a string or a file, 5 kinds of error, 0..3 lines after it, one byte of the bad text any letter [quick=200]
//@ case 1 SubRip: the first of two errors :: 5 kinds of error by 5 others, in the same cue or a later one [quick=60]
//@ case 2 SubRip: colours on any line of a cue and after separators :: 0..3 lines before, 0..2 line separators and 0..1 good font tags in front on the same line [quick=60]
//@ case 3 WebVTT: text and context :: 0..2 good cues, notes and blank lines before it, LF or CRLF, 3 kinds of error, 0..3 lines after it, one byte of the bad text any letter [quick=100]
//@ case 4 SubRip: errors far down a document :: line 1..1200, long lines before, from a string or a file [quick=60]
//@ case 5 any bytes in the bad text :: two bytes any but white space, digits and signs in a line that is not a time line or in either time, SubRip and WebVTT [quick=60]
//@ case 6 time lines of any number of words :: 1..12 words, one byte any letter, both times bad when there are three or seven, 0..4 lines after of 4 kinds, good cues before, SubRip and WebVTT [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
#include "subrip.h"

static bool from_file;
static void feed (std::string const& doc) { vp_vfs_put("vp_doc.srt", doc.data(), doc.size()); }

struct Error { bool thrown; int line; std::string what; std::list<std::string> context; };

static Error subrip (std::string const& doc)
{
	Error e = {false, 0, "", std::list<std::string>()};
	try {
		if (from_file) {
			feed(doc);
			FILE* f = fopen("vp_doc.srt", "r");
			SubripReader r (f);
			fclose(f);
		} else {
			SubripReader r (doc);
		}
	} catch (SubripError& x) {
		e.thrown = true; e.line = x.line_number(); e.what = x.what(); e.context = x.context();
	} catch (std::exception& x) {
		vp_fail("another exception is thrown");
	}
	return e;
}

static Error vtt (std::string const& doc)
{
	Error e = {false, 0, "", std::list<std::string>()};
	try {
		WebVTTReader r (doc);
	} catch (WebVTTHeaderError& x) {
		vp_fail("the header is refused");
	} catch (WebVTTError& x) {
		e.thrown = true; e.what = x.what(); e.context = x.context();
	} catch (std::exception& x) {
		vp_fail("another exception is thrown");
	}
	return e;
}

static std::string trimmed (std::string s)
{
	while (!s.empty() && (s[s.size() - 1] == '\n' || s[s.size() - 1] == '\r')) s.erase(s.size() - 1);
	return s;
}

// is `part` somewhere in `s`, as a formula
static int contains (std::string const& s, std::string const& part)
{
	int r = 0;
	for (size_t i = 0; i + part.size() <= s.size(); ++i) r = EITHER(vp_mem_eq(s.data() + i, part.data(), part.size()), r);
	return r;
}

struct Doc {
	std::string nl, text;
	std::vector<std::string> lines;
	Doc (std::string n) : nl(n) {}
	void add (std::string const& l) { lines.push_back(l); text += l + nl; }
};

// the error is on line `bad` (counting from 0) of the document
static void check (Error const& e, Doc const& d, int bad, std::string const& saw, bool number, int following)
{
	vp_assert(e.thrown, "the error is not reported");
	if (number) vp_assert(e.line == bad + 1, "the line number is wrong");
	vp_assert(contains(e.what, saw), "the message does not name the offending text");
	vp_observe_str(e.what);
	std::vector<std::string> want;
	for (int i = bad - 4 < 0 ? 0 : bad - 4; i <= bad; ++i) want.push_back(d.lines[i]);
	for (int i = bad + 1; i <= bad + following && i < (int) d.lines.size(); ++i) want.push_back(d.lines[i]);
	vp_assert(e.context.size() == want.size(), "the context has the wrong number of lines");
	if (e.context.size() != want.size()) vp_stop();
	All same;
	size_t k = 0;
	for (std::list<std::string>::const_iterator i = e.context.begin(); i != e.context.end(); ++i, ++k) {
		std::string got = trimmed(*i), exp = want[k];
		// a time line may be shown without the spaces at its end
		same.add(vp_str_eq(got, exp));
	}
	vp_assert(same.v, "the context is not the lines up to the error");
}

static char const* const GOOD = "00:00:01,000 --> 00:00:02,000";

// adds the bad line; returns the text that must be named
static std::string bad_line (Doc& d, int kind, char c, int& at, int& following)
{
	std::string saw;
	following = 0;
	d.add("9");
	switch (kind) {
	case 0: saw = std::string("not a time") + c; d.add(saw + " line"); following = 2; at = (int) d.lines.size() - 1; break;
	case 1: saw = std::string("00:00:0") + c + ",000"; d.add(saw + " --> 00:00:02,000"); at = (int) d.lines.size() - 1; break;
	case 2: saw = std::string("00:00:02.0") + c + "0"; d.add("00:00:01,000 --> " + saw + " X1:1 X2:2 Y1:3 Y2:4"); at = (int) d.lines.size() - 1; break;
	case 3: d.add(GOOD); saw = std::string("color=\"#12345") + c + "\""; d.add("a<font " + saw + ">b"); at = (int) d.lines.size() - 1; break;
	case 4: d.add(GOOD); d.add("fine"); saw = std::string("color=\"rgba(1,2") + c + ",3,4)\""; d.add("<font " + saw + ">b"); at = (int) d.lines.size() - 1; break;
	}
	return saw;
}

extern "C" void vp_harness ()
{
	int bad = 0, following = 0;
	from_file = false;
	switch (vp_case()) {
	case 0: {
		int o = vp_choice("form", 4);
		from_file = o & 1;
		Doc d (o & 2 ? "\r\n" : "\n");
		int cues = vp_choice("cues before", 4), blanks = vp_choice("blank lines", 3), kind = vp_choice("kind", 5), after = vp_choice("lines after", 4);
		for (int i = 0; i < blanks; ++i) d.add("");
		for (int i = 0; i < cues; ++i) {
			d.add(digits(i + 1, 1));
			d.add(GOOD);
			for (int j = 0; j < (i + blanks) % 3; ++j) d.add(std::string("text ") + (char) ('a' + i) + (char) ('0' + j));
			d.add("");
			if (i == blanks) d.add("");
		}
		std::string saw = bad_line(d, kind, (char) vp_range("letter", 'g', 'z'), bad, following);
		for (int i = 0; i < after; ++i) d.add(std::string("after ") + (char) ('0' + i));
		check(subrip(d.text), d, bad, saw, true, following);
		vp_cover("end");
		break;
	}
	case 1: {
		from_file = vp_choice("file", 2);
		Doc d ("\n");
		int a = vp_choice("first", 5), b = vp_choice("second", 5), gap = vp_choice("apart", 2);
		std::string saw = bad_line(d, a, (char) vp_range("letter", 'g', 'z'), bad, following);
		if (gap) d.add("");
		int bad2, following2;
		bad_line(d, b, 'y', bad2, following2);
		d.add("");
		check(subrip(d.text), d, bad, saw, true, following);
		vp_cover("end");
		break;
	}
	case 2: {
		from_file = vp_choice("file", 2);
		Doc d (vp_choice("CRLF", 2) ? "\r\n" : "\n");
		d.add("1");
		d.add(GOOD);
		int lines = vp_choice("lines", 4), seps = vp_choice("separators", 3), good = vp_choice("a good tag", 2);
		for (int i = 0; i < lines; ++i) d.add(i == 1 ? "x\xe2\x80\xa8y" : "x");
		std::string l;
		for (int i = 0; i < seps; ++i) l += "p\xe2\x80\xa8";
		if (good) l += "<font color=\"#112233\">q";
		std::string saw = std::string("color=#12") + (char) vp_char("digit", "0123456789abcdefABCDEF", 22) + "45";
		l += "<font " + saw + ">r";
		d.add(l);
		d.add("tail");
		check(subrip(d.text), d, (int) d.lines.size() - 2, saw, true, 0);
		vp_cover("end");
		break;
	}
	case 3: {
		Doc d (vp_choice("CRLF", 2) ? "\r\n" : "\n");
		int cues = vp_choice("cues before", 3), notes = vp_choice("a note", 2), kind = vp_choice("kind", 3), after = vp_choice("lines after", 4);
		char c = (char) vp_range("letter", 'g', 'z');
		d.add("WEBVTT");
		d.add("");
		for (int i = 0; i < cues; ++i) {
			d.add("00:00:01.000 --> 00:00:02.000");
			for (int j = 0; j <= (i + notes) % 3; ++j) d.add(std::string("text ") + (char) ('a' + i) + (char) ('0' + j));
			d.add("");
		}
		if (notes) { d.add("NOTE 1"); d.add("1 --> 2"); d.add(""); d.add("id"); }
		std::string saw;
		switch (kind) {
		case 0: saw = std::string("1 --> ") + c + " 3"; d.add(saw); following = 2; break;
		case 1: saw = std::string("00:00:0") + c + ".000"; d.add(saw + " --> 00:00:02.000"); break;
		case 2: saw = std::string("00:00:02,0") + c + "0"; d.add("00:00:01.000 --> " + saw + " X1:1 X2:2 Y1:3 Y2:4"); break;
		}
		bad = (int) d.lines.size() - 1;
		for (int i = 0; i < after; ++i) d.add(i == 1 ? std::string("a b --> c d") : std::string("after ") + (char) ('0' + i));
		check(vtt(d.text), d, bad, saw, false, following);
		vp_cover("end");
		break;
	}
	case 4: {
		static int const counts[4] = {2, 10, 99, 298};
		from_file = vp_choice("file", 2);
		Doc d ("\n");
		int n = counts[vp_choice("cues", vp_tier() ? 4 : 3)], kind = vp_choice("kind", 5);
		for (int i = 0; i < n; ++i) {
			d.add("1");
			d.add(GOOD);
			d.add(i % 50 == 49 ? std::string(254 + i / 50, 'x') : "text");
			d.add("");
		}
		std::string saw = bad_line(d, kind, (char) vp_range("letter", 'g', 'z'), bad, following);
		d.add("after");
		check(subrip(d.text), d, bad, saw, true, following);
		vp_cover("end");
		break;
	}
	case 5: {
		int kind = vp_choice("error", 3), web = vp_choice("format", 2);
		std::string two;
		for (int i = 0; i < 2; ++i) {
			char c = (char) vp_byte("byte");
			vp_assume((c != ' ') & (c != 0) & ((c < 9) | (c > 13)) & ((c < '0') | (c > '9')) & (c != '+') & (c != '-'));
			two += c;
		}
		Doc d ("\n");
		if (web) { d.add("WEBVTT"); d.add(""); } else d.add("1");
		std::string saw, dot = web ? "." : ",";
		if (kind == 0) { saw = web ? "00:00:01" + two + "000" : "not" + two; d.add(web ? saw + " --> 00:00:02.000" : saw + " times"); }
		else if (kind == 1) { saw = "00:00:0" + two + dot + "000"; d.add(saw + " --> 00:00:02" + dot + "000"); }
		else { saw = "00:00:02" + dot + "0" + two; d.add("00:00:01" + dot + "000 --> " + saw); }
		int at = (int) d.lines.size() - 1;
		d.add("text");
		check(web ? vtt(d.text) : subrip(d.text), d, at, saw, !web, kind == 0 && !web ? 2 : 0);
		vp_cover("end");
		break;
	}
	case 6: {
		int words = 1 + vp_choice("words", 12), web = vp_choice("format", 2), after = vp_choice("lines after", 5), cues = vp_choice("cues before", 2), kind = vp_choice("kind of lines after", 4);
		// three words and seven are a time line, though not a good one
		Doc d ("\n");
		if (web) { d.add("WEBVTT"); d.add(""); }
		if (cues) { if (!web) d.add("1"); d.add(web ? "00:00:01.000 --> 00:00:02.000" : GOOD); d.add("text"); d.add(""); }
		std::string saw, dot = web ? "." : ",";
		char c = (char) vp_range("letter", 'g', 'z');
		for (int i = 0; i < words; ++i) saw += (i ? " " : "") + (i == 0 ? "q7x" : i == 1 ? "-->" : std::string(1, (char) ('a' + i))) + (i == words - 1 ? std::string(1, c) : "");
		if (words == 2) saw = std::string(1, c) + " -->";
		if (!web) d.add("2");
		// a line with no arrow in it is an identifier
		if (web && words == 1) saw = "-->" + std::string(1, c);
		d.add(saw);
		int at = (int) d.lines.size() - 1;
		for (int i = 0; i < after; ++i) d.add(kind == 0 ? std::string("after ") + (char) ('0' + i) : kind == 1 ? " after" : kind == 2 ? (i % 2 ? "8" : "") : std::string("a --> ") + (char) ('b' + i));
		bool times = words == 3 || words == 7;
		std::string named = !times ? saw : "q7x";
		check(web ? vtt(d.text) : subrip(d.text), d, at, named, !web, times ? 0 : 2);
		vp_cover("end");
		break;
	}
	}
}
