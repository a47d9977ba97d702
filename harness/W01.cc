//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc effect.cc web_vtt_reader.cc
//@ case 0 header :: first lines of 1..8 characters with any one byte (two in the thorough tier) replaced by any, after an optional byte-order mark, with or without a cue after [quick=100]
//@ case 1 line endings, byte-order mark, identifiers, coordinates, notes :: two cues, every combination of 7 options, two text bytes any [quick=100]
//@ case 2 sequences of blocks :: 3 blocks (4 in the thorough tier) out of 8 kinds of cue, note, style and metadata, one byte of each any [quick=200]
//@ case 3 line separators :: a line of 5 pieces from text and U+2028, in a cue with another line [quick=100]
//@ case 4 text is verbatim :: a text line of any 4 bytes (5 in the thorough tier), preceded and followed by others [quick=100]
//@ case 5 time lines of the wrong shape :: 1..10 words one of which is -->, one byte any [quick=60]
//@ case 6 identifiers and metadata lines :: any 3 bytes alone, after NOTE or before a time line [quick=100]
//@ case 7 any times in long documents :: 30 cues, the times of one any [quick=60]
//@ case 8 tall cues :: 5..120 lines, one byte of the first, middle or last any, between others [quick=60]
//@ cover 0: refused, read
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: refused, read
//@ cover 6: end
//@ cover 7: end
//@ cover 8: end
//@ assume bytes are not NUL, LF or CR; lines in the middle of a document do not begin with a byte-order mark
#include "subrip.h"

static char byte (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != '\n') & (c != '\r') & (c != 0) & (c != '\xef'));
	return c;
}
static char text_byte (char const* name)
{
	char c = byte(name);
	vp_assume(c != '\xe2');
	return c;
}

static std::vector<RawSubtitle> parse (std::string const& doc)
{
	try {
		return WebVTTReader(doc).subtitles();
	} catch (std::exception& e) {
		vp_fail("a well-formed document is refused");
	}
	return std::vector<RawSubtitle>();
}

// 0 read, 1 WebVTTHeaderError, 2 WebVTTError
static int outcome (std::string const& doc, std::vector<RawSubtitle>& got)
{
	try {
		got = WebVTTReader(doc).subtitles();
		return 0;
	} catch (WebVTTHeaderError& e) {
		return 1;
	} catch (WebVTTError& e) {
		return 2;
	} catch (std::exception& e) {
		vp_fail("an undocumented exception");
	}
	return 3;
}

static std::string time_line (ll f, ll o) { return stamp(f, '.') + " --> " + stamp(o, '.'); }

extern "C" void vp_harness ()
{
	std::vector<Run> want;
	std::string doc;
	switch (vp_case()) {
	case 0: {
		static char const* const heads[8] = {"W", "WEB", "WEBVT", "WEBVTT", "WEBVTT ", "WEBVTT x", " WEBVTT", "webvtt"};
		std::string h = heads[vp_choice("header", 8)];
		for (int i = 0; i < 1 + vp_tier(); ++i) {
			int k = vp_choice("place", (int) h.size() + 1);
			if (k < (int) h.size()) { char c = (char) vp_byte("byte"); vp_assume((c != '\n') & (c != '\r') & (c != 0)); h[k] = c; }
		}
		int bom = vp_choice("byte-order mark", 2), more = vp_choice("cue", 3);
		doc = (bom ? "\xef\xbb\xbf" : "") + h;
		if (more) doc += (more == 2 ? "\r\n" : "\n") + std::string("\n") + time_line(1000, 2000) + "\ntext\n";
		bool ok = h.size() >= 6 && h[0] == 'W' && h[1] == 'E' && h[2] == 'B' && h[3] == 'V' && h[4] == 'T' && h[5] == 'T';
		std::vector<RawSubtitle> got;
		int r = outcome(doc, got);
		vp_assert(r == (ok ? 0 : 1), ok ? "a document with the header is refused" : "a document without the header is not refused with WebVTTHeaderError");
		if (ok) {
			if (more) want.push_back(Run("text", 1000, 2000, 0));
			check_runs(got, want);
			vp_cover("read");
		} else {
			vp_cover("refused");
		}
		break;
	}
	case 1: {
		int o = vp_choice("options", 128);
		std::string nl = o & 1 ? "\r\n" : "\n";
		if (o & 2) doc += "\xef\xbb\xbf";
		doc += "WEBVTT" + nl + (o & 4 ? "Kind: captions" + nl : "") + nl;
		if (o & 8) doc += "NOTE this is" + nl + "a note" + nl + nl;
		if (o & 16) doc += "intro 1" + nl;
		std::string t1 = std::string(1, text_byte("byte")) + "b", t2 = std::string("c") + text_byte("byte");
		doc += time_line(1500, 2250) + (o & 32 ? " X1:201 X2:516 Y1:397 Y2:423  " : "") + nl + t1 + nl + "more" + nl;
		want.push_back(Run(t1, 1500, 2250, 0));
		want.push_back(Run("more", 1500, 2250, 1));
		doc += nl;
		if (o & 8) doc += nl + "NOTE" + nl + nl;
		if (o & 16) doc += "2" + nl;
		doc += time_line(3723004, 3724999) + nl + t2;
		want.push_back(Run(t2, 3723004, 3724999, 0));
		if (o & 64) doc += nl;
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 2: {
		doc = "WEBVTT\n\n";
		for (int i = 0; i < 3 + vp_tier(); ++i) {
			ll f = 1000 * (i + 1), o = f + 777;
			char c = text_byte("byte");
			std::string t = std::string(1, (char) ('p' + i)) + c, tl = time_line(f, o);
			switch (vp_choice("block", 8)) {
			case 0: doc += tl + "\n"; break;
			case 1: doc += tl + "\n" + t + "\n"; want.push_back(Run(t, f, o, 0)); break;
			case 2: doc += std::string("i") + c + "\n" + tl + "\n" + t + "\nq\n" + c + "\n"; want.push_back(Run(t, f, o, 0)); want.push_back(Run("q", f, o, 1)); want.push_back(Run(std::string(1, c), f, o, 2)); break;
			case 3: doc += "NOTE\n" + t + "\n" + tl + "\n" + t + "\n" + tl + "\n" + t + "\n"; break;
			case 4: doc += std::string("NOTE ") + c + "\n"; break;
			case 5: doc += std::string("STYLE\n::cue {") + c + "}\n"; break;
			case 6: doc += std::string("x") + c + "\ny\n\n\n"; break;
			case 7: doc += tl + "\nNOTE " + c + "\n" + tl + "\nWEBVTT\n"; want.push_back(Run(std::string("NOTE ") + c, f, o, 0)); want.push_back(Run(tl, f, o, 1)); want.push_back(Run("WEBVTT", f, o, 2)); break;
			}
			doc += "\n";
		}
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 3: {
		doc = "WEBVTT\n\n" + time_line(1000, 2000) + "\n";
		int where = vp_choice("separators on line", 2), line = 0;
		if (where) { doc += "first\n"; want.push_back(Run("first", 1000, 2000, line++)); }
		std::string cur;
		bool any = false;
		for (int i = 0; i < 5; ++i) {
			switch (vp_choice("piece", 3)) {
			case 0: { char c = text_byte("byte"); doc += c; cur += c; any = true; break; }
			case 1: doc += "\xe2\x80\xa8"; want.push_back(Run(cur, 1000, 2000, line)); ++line; cur = ""; any = true; break;
			case 2: break;
			}
		}
		if (!any) vp_stop();
		want.push_back(Run(cur, 1000, 2000, line));
		++line;
		doc += "\nlast\n\n" + time_line(2000, 3000) + "\nnext";
		want.push_back(Run("last", 1000, 2000, line));
		want.push_back(Run("next", 2000, 3000, 0));
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 4: {
		std::string t;
		int n = 4 + vp_tier(), any = vp_choice("a separator's bytes", 2);
		for (int i = 0; i < n; ++i) {
			if (any && i < 2) t += i ? "\x80" : "\xe2";
			else t += text_byte("byte");
		}
		if (any) vp_assume(t[2] != '\xa8');
		doc = "WEBVTT\n\n" + time_line(1000, 2000) + "\na\n" + t + "\nb\n";
		want.push_back(Run("a", 1000, 2000, 0));
		want.push_back(Run(t, 1000, 2000, 1));
		want.push_back(Run("b", 1000, 2000, 2));
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 5: {
		int n = 1 + vp_choice("words", 10), good = vp_choice("a cue before", 2);
		doc = "WEBVTT\n\n";
		if (good) { doc += time_line(500, 700) + "\nold\n\n"; want.push_back(Run("old", 500, 700, 0)); }
		char c = (char) vp_char("byte", "abcXYZ019:%-", 12);
		for (int i = 0; i < n; ++i) {
			if (i) doc += " ";
			doc += i == 0 && n > 1 ? stamp(1000, '.') : i == (n > 1) ? std::string("-->") : i == 2 ? stamp(2000, '.') : std::string("w") + c;
		}
		doc += "\ntext\n";
		std::vector<RawSubtitle> got;
		int r = outcome(doc, got);
		bool ok = n == 3 || n == 7;
		vp_assert(r == (ok ? 0 : 2), ok ? "a good time line is refused" : "a time line of the wrong shape does not raise WebVTTError");
		if (ok) {
			want.push_back(Run("text", 1000, 2000, 0));
			check_runs(got, want);
			vp_cover("read");
		} else {
			vp_cover("refused");
		}
		break;
	}
	case 6: {
		int k = vp_choice("place", 5);
		std::string t;
		for (int i = 0; i < 3; ++i) t += byte("byte");
		// not a time line, and not a note where it is an identifier
		vp_assume(EITHER(EITHER(t[0] != '-', t[1] != '-'), t[2] != '>'));
		doc = "WEBVTT" + std::string(k == 4 ? t : "") + "\n\n";
		if (k == 0) doc += t + "\n\n";
		if (k == 1) doc += "NOTE " + t + "\n\n";
		if (k == 2) doc += t + "\n";
		if (k == 3) { vp_assume((t[0] != ' ') & (t[0] != '\t')); doc += "NOTE" + t + "\n"; }
		doc += time_line(1000, 2000) + "\ntext\n";
		want.push_back(Run("text", 1000, 2000, 0));
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 7: {
		doc = "WEBVTT\n\n";
		int k = vp_choice("cue", 3) * 14;
		for (int i = 0; i < 30; ++i) {
			ll f = i * 61000, o = f + 500;
			if (i == k) { f = 3599000 + 250 * vp_choice("block", 4) + vp_range("start", 0, 249); o = 86399000 + vp_range("end", 750, 999); }
			std::string t (i * 11 % 300 + 1, (char) ('a' + i % 26));
			doc += time_line(f, o) + "\n" + t + "\n" + (i % 3 ? "x\n" : "") + "\n";
			want.push_back(Run(t, f, o, 0));
			if (i % 3) want.push_back(Run("x", f, o, 1));
		}
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	case 8: {
		// one cue with many lines, short and tall ones on either side of it
		static int const heights[8] = {5, 6, 7, 8, 9, 16, 33, 120};
		int h = heights[vp_choice("lines", 8)], k = vp_choice("line", 3);
		k = k == 0 ? 0 : k == 1 ? h / 2 : h - 1;
		doc = "WEBVTT\n\n";
		for (int i = 0; i < 3; ++i) {
			doc += time_line(i * 1000, i * 1000 + 500) + "\n";
			for (int j = 0; j < (i == 1 ? h : 1 + i); ++j) {
				std::string t = std::string(1, (char) ('a' + i)) + digits(j, 3);
				if (i == 1 && j == k) t += text_byte("byte");
				doc += t + "\n";
				want.push_back(Run(t, i * 1000, i * 1000 + 500, j));
			}
			doc += "\n";
		}
		check_runs(parse(doc), want);
		vp_cover("end");
		break;
	}
	}
}
