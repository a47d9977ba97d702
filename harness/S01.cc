//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc effect.cc web_vtt_reader.cc
//@ case 0 line endings, blank lines, trailing spaces, byte-order mark, final newline, coordinates :: two cues of 1..2 lines, every combination of 7 options, two text bytes any [quick=150]
//@ case 1 nothing carried over to the next cue :: 14 kinds of open markup at the end of the first cue, with or without text after it, 0..2 text bytes any [quick=60]
//@ case 2 shapes of documents :: four cues of 0..2 lines each with 1..2 blank lines between [quick=100]
//@ case 3 line separators :: a line of 6 pieces from text (any byte), U+2028 and U+202B, in a cue with another line [quick=150]
//@ case 4 counter lines :: any three bytes, or empty lines before [quick=60]
//@ case 5 any times :: milliseconds from every block of 250 in 0..999 and three of the other fields at their bounds [quick=60]
//@ case 6 long documents :: 40 cues, one with symbolic text, line lengths 1..300 [quick=60]
//@ case 7 tall cues :: 5..120 lines, one byte of the first, middle or last any, between others [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ assume text bytes are not NUL, and a text line does not begin with a byte-order mark
#include "subrip.h"

static char text_byte (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != '\n') & (c != '\r') & (c != '<') & (c != '{') & (c != 0) & (c != '\xe2') & (c != '\xef'));
	return c;
}

static std::vector<RawSubtitle> parse (std::string const& doc)
{
	try {
		return SubripReader(doc).subtitles();
	} catch (std::exception& e) {
		vp_fail("a well-formed document is refused");
	}
	return std::vector<RawSubtitle>();
}

extern "C" void vp_harness ()
{
	std::vector<Run> want;
	std::string doc;
	switch (vp_case()) {
	case 0: {
		int o = vp_choice("options", 128);
		std::string nl = o & 1 ? "\r\n" : "\n", tail = o & 2 ? "   " : "", coords = o & 4 ? " X1:201 X2:516 Y1:397 Y2:423" : "";
		if (o & 8) doc += "\xef\xbb\xbf";
		if (o & 16) doc += nl + nl;
		std::string t1 = std::string(1, text_byte("byte")) + "b", t2 = std::string("c") + text_byte("byte");
		doc += "1" + nl + "00:00:01,500 --> 00:00:02,250" + coords + tail + nl + t1 + nl;
		want.push_back(Run(t1, 1500, 2250, 0));
		if (o & 32) { doc += "more" + nl; want.push_back(Run("more", 1500, 2250, 1)); }
		doc += nl;
		if (o & 16) doc += nl;
		doc += "2" + nl + "01:02:03,004 --> 01:02:04,999" + tail + nl + t2;
		want.push_back(Run(t2, 3723004, 3724999, 0));
		if (o & 64) doc += nl;
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 1: {
		static char const* const open[14] = {"<b>", "<i>", "<u>", "{b}", "{i}", "{u}", "<font color=\"#ff0000\">", "<font color='#00ff0080'>", "<font color=\"rgba(1,2,3,4)\">", "<B><I><U>", "{\\i1}", "{\\b1}", "<font color=#123456><font color=#654321>", "{\\c&H0000ff&}"};
		int k = vp_choice("markup", 14), n = vp_choice("text after", 3);
		std::string t;
		for (int i = 0; i < n; ++i) t += text_byte("byte");
		char c = text_byte("next");
		doc = "1\n00:00:01,000 --> 00:00:02,000\nA" + std::string(open[k]) + t + "\n\n2\n00:00:03,000 --> 00:00:04,000\n" + c + "\n";
		std::vector<RawSubtitle> got = parse(doc);
		vp_assert(got.size() >= 2, "a run is lost");
		// only the first run and the last one matter here
		vp_assert(got.size() == (n ? 3 : 2), "the number of runs is wrong");
		if (n && got.size() == 3) {
			vp_assert(vp_str_eq(got[1].text, t), "a run has the wrong text");
			vp_assert(got[1].bold || got[1].italic || got[1].underline || !(got[1].colour == Colour(1, 1, 1)), "markup has no effect");
			got.erase(got.begin() + 1);
		}
		want.push_back(Run("A", 1000, 2000, 0));
		want.push_back(Run(std::string(1, c), 3000, 4000, 0));
		check_runs(got, want);
		vp_cover("end");
		break;
	}
	case 2: {
		char c = text_byte("byte");
		for (int i = 0; i < 4; ++i) {
			int lines = vp_choice("lines", 3);
			doc += "7\n00:00:0" + std::string(1, (char) ('1' + i)) + ",000 --> 00:00:0" + (char) ('2' + i) + ",000\n";
			for (int j = 0; j < lines; ++j) {
				std::string t = std::string(1, (char) ('a' + i)) + c + (char) ('0' + j);
				doc += t + "\n";
				want.push_back(Run(t, 1000 * (i + 1), 1000 * (i + 2), j));
			}
			doc += "\n";
			if (vp_choice("another blank line", 2)) doc += "\n";
		}
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 3: {
		// pieces: 0 text, 1 U+2028, 2 U+202B
		doc = "1\n00:00:01,000 --> 00:00:02,000\n";
		int where = vp_choice("separators on line", 2), line = 0;
		if (where) { doc += "first\n"; want.push_back(Run("first", 1000, 2000, line++)); }
		std::string cur;
		bool any = false;
		for (int i = 0; i < (vp_tier() ? 6 : 5); ++i) {
			switch (vp_choice("piece", 4)) {
			case 0: { char c = text_byte("byte"); doc += c; cur += c; any = true; break; }
			case 1: doc += "\xe2\x80\xa8"; if (!cur.empty()) want.push_back(Run(cur, 1000, 2000, line)); ++line; cur = ""; any = true; break;
			case 2: doc += "\xe2\x80\xab"; any = true; break;
			case 3: break;
			}
		}
		if (!any) vp_stop();
		if (!cur.empty()) want.push_back(Run(cur, 1000, 2000, line));
		++line;
		doc += "\nlast\n";
		want.push_back(Run("last", 1000, 2000, line));
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 4: {
		int blanks = vp_choice("blank lines", 4), n = 1 + vp_choice("length", 3);
		std::string counter;
		for (int i = 0; i < n; ++i) {
			char c = (char) vp_byte("byte");
			vp_assume((c != '\n') & (c != '\r') & (c != 0) & (c != '\xef'));
			counter += c;
		}
		for (int i = 0; i < blanks; ++i) doc += i == 1 ? "\r\n" : "\n";
		doc += counter + "\n00:00:01,000 --> 00:00:02,000\ntext\n\n\n" + counter + "\r\n00:00:02,000 --> 00:00:03,000\r\ntoo\r\n";
		want.push_back(Run("text", 1000, 2000, 0));
		want.push_back(Run("too", 2000, 3000, 0));
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 5: {
		static ll const bases[5] = {0, 59000, 3599000, 359999000, 36000000};
		ll a = bases[vp_choice("start second", 5)] + 250 * vp_choice("start block", 4) + vp_range("start", 0, 249);
		ll b = bases[vp_choice("end second", 5)] + 250 * vp_choice("end block", 4) + vp_range("end", 0, 249);
		doc = "1\n" + stamp(a, ',') + " --> " + stamp(b, ',') + "\nfirst\nsecond\n\n2\n" + stamp(b, ',') + " --> " + stamp(a, ',') + "\nthird";
		want.push_back(Run("first", a, b, 0));
		want.push_back(Run("second", a, b, 1));
		want.push_back(Run("third", b, a, 0));
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 6: {
		int k = vp_choice("cue", 4) * 13;
		for (int i = 0; i < 40; ++i) {
			std::string t (i * 7 % 300 + 1, (char) ('a' + i % 26));
			if (i == k) t[0] = text_byte("byte");
			ll f = i * 1000, o = i * 1000 + 500;
			doc += "1\n" + stamp(f, ',') + " --> " + stamp(o, ',') + "\n" + t + "\n" + (i % 3 ? "x\n" : "") + "\n";
			want.push_back(Run(t, f, o, 0));
			if (i % 3) want.push_back(Run("x", f, o, 1));
		}
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 7: {
		// one cue with many lines, short and tall ones on either side of it
		static int const heights[8] = {5, 6, 7, 8, 9, 16, 33, 120};
		int h = heights[vp_choice("lines", 8)], k = vp_choice("line", 3);
		k = k == 0 ? 0 : k == 1 ? h / 2 : h - 1;
		for (int i = 0; i < 3; ++i) {
			doc += "1\n" + stamp(i * 1000, ',') + " --> " + stamp(i * 1000 + 500, ',') + "\n";
			for (int j = 0; j < (i == 1 ? h : 1 + i); ++j) {
				std::string t = std::string(1, (char) ('a' + i)) + digits(j, 3);
				if (i == 1 && j == k) t += text_byte("byte");
				doc += t + "\n";
				want.push_back(Run(t, i * 1000, i * 1000 + 500, j));
			}
			doc += "\n";
		}
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	}
}
