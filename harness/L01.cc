//@ case 0 short documents of any bytes, three readers :: 6 bytes (8 in the thorough tier), the first two any and the others from LF CR a 1 : { < > BOM bytes, after nothing, a WebVTT header or an SSA header [quick=150]
//@ case 1 line endings :: SubRip, WebVTT and SSA documents of 9 lines; LF, CRLF or CR at the ends of each of 3 of the lines, the last with or without a newline, one byte any [quick=150]
//@ case 2 line lengths :: a text line of 200..1100 characters around each multiple of the 255-byte buffer, ended by LF, CRLF or nothing, the byte at the buffer's end any [quick=150]
//@ case 3 the same exceptions :: malformed SubRip, WebVTT and SSA documents with errors of 6 kinds, one byte any [quick=100]
//@ case 4 EBU STL :: files of 1024 + 128 n bytes, n in 0..2, from an istream and a FILE*, two text bytes any, and truncated at 12 lengths [quick=150]
//@ case 5 long documents :: 60 cues with lines of 1..600 characters, and blank lines [quick=60]
//@ cover 0: read, refused
//@ cover 1: end
//@ cover 2: end
//@ cover 3: refused
//@ cover 4: read, refused
//@ cover 5: end
//@ assume text documents have no NUL bytes
#include "common.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "exceptions.h"
using namespace sub;

static inline int about (double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }
#include <map>
struct Result { int outcome; std::string what; std::vector<RawSubtitle> subs; std::map<std::string, std::string> meta; };

template <class R> static void take (R const& r, Result& x) { x.subs = r.subtitles(); x.meta = r.metadata(); }

template <class F> static Result guard (F f)
{
	Result r;
	r.outcome = 0;
	try {
		f(r);
	} catch (WebVTTHeaderError& e) { r.outcome = 1; r.what = e.what();
	} catch (WebVTTError& e) { r.outcome = 2; r.what = e.what();
	} catch (SubripError& e) { r.outcome = 3; r.what = e.what();
	} catch (SSAError& e) { r.outcome = 4; r.what = e.what();
	} catch (STLError& e) { r.outcome = 5; r.what = e.what();
	} catch (ProgrammingError& e) { r.outcome = 6; r.what = e.what();
	} catch (std::exception& e) { r.outcome = 7; r.what = e.what(); }
	return r;
}

static Result from_string (int kind, std::string const& doc)
{
	return guard([&](Result& r) {
		if (kind == 0) take(SubripReader(doc), r);
		else if (kind == 1) take(WebVTTReader(doc), r);
		else if (kind == 2) take(SSAReader(doc), r);
		else { std::istringstream s (doc); take(STLBinaryReader(s), r); }
	});
}

static Result from_file (int kind, std::string const& doc)
{
	vp_vfs_put("vp_doc", doc.data(), doc.size());
	FILE* f = fopen("vp_doc", "rb");
	Result x = guard([&](Result& r) {
		if (kind == 0) take(SubripReader(f), r);
		else if (kind == 1) take(WebVTTReader(f), r);
		else if (kind == 2) take(SSAReader(f), r);
		else take(STLBinaryReader(f), r);
	});
	fclose(f);
	return x;
}

template <class T> static bool same_opt (boost::optional<T> const& a, boost::optional<T> const& b) { return bool(a) == bool(b) && (!a || *a == *b); }

static void compare (int kind, std::string const& doc)
{
	Result a = from_string(kind, doc), b = from_file(kind, doc);
	vp_assert(a.outcome == b.outcome, "read from one source but not from the other, or different exceptions");
	if (a.outcome != b.outcome) vp_stop();
	vp_assert(vp_str_eq(a.what, b.what), "different messages");
	vp_assert(a.subs.size() == b.subs.size(), "different numbers of subtitles");
	if (a.subs.size() != b.subs.size()) vp_stop();
	All text, rest;
	for (size_t i = 0; i < a.subs.size(); ++i) {
		RawSubtitle const& x = a.subs[i];
		RawSubtitle const& y = b.subs[i];
		text.add(vp_str_eq(x.text, y.text));
		rest.add(x.from == y.from && x.to == y.to);
		rest.add((x.bold == y.bold) & (x.italic == y.italic) & (x.underline == y.underline) & (x.colour == y.colour));
		rest.add(same_opt(x.vertical_position.line, y.vertical_position.line) && same_opt(x.vertical_position.lines, y.vertical_position.lines) && same_opt(x.vertical_position.reference, y.vertical_position.reference) && same_opt(x.vertical_position.proportional, y.vertical_position.proportional));
		rest.add(x.horizontal_position.reference == y.horizontal_position.reference && about(x.horizontal_position.proportional, y.horizontal_position.proportional));
		rest.add(same_opt(x.font, y.font) && same_opt(x.effect, y.effect));
		vp_observe_str(x.text);
	}
	vp_assert(text.v, "different texts");
	vp_assert(rest.v, "different times, places or styles");
	vp_assert(a.meta == b.meta, "different metadata");
	vp_cover(a.outcome ? "refused" : "read");
}

static std::string const SSA_HEAD = "[Script Info]\nPlayResX: 100\n[V4+ Styles]\nFormat: Name, Fontsize\nStyle: Default,10\n[Events]\nFormat: Start, End, Text\n";

static char non_nul (char const* name) { char c = (char) vp_byte(name); vp_assume(c != 0); return c; }

static std::vector<std::string> lines (int kind, std::string const& t)
{
	std::vector<std::string> l;
	if (kind == 0) { char const* a[] = {"1", "00:00:01,000 --> 00:00:02,000", 0, "b", "", "2", "00:00:03,000 --> 00:00:04,000", "c", "d"}; for (int i = 0; i < 9; ++i) l.push_back(a[i] ? a[i] : t.c_str()); l[2] = t; }
	if (kind == 1) { char const* a[] = {"WEBVTT", "", "00:00:01.000 --> 00:00:02.000", "b", "", "NOTE", "", "00:00:03.000 --> 00:00:04.000", "c"}; for (int i = 0; i < 9; ++i) l.push_back(a[i]); l[3] = t; }
	if (kind == 2) { char const* a[] = {"[Script Info]", "PlayResX: 100", "[V4+ Styles]", "Format: Name, Fontsize", "Style: Default,10", "[Events]", "Format: Start, End, Text", "Dialogue: 0:00:01.00,0:00:02.00,", "Dialogue: 0:00:02.00,0:00:03.00,x"}; for (int i = 0; i < 9; ++i) l.push_back(a[i]); l[7] += t; }
	return l;
}

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		int kind = vp_choice("reader", 3), head = vp_choice("header", 2);
		std::string doc = !head ? "" : kind == 0 ? "1\n00:00:01,000 --> 00:00:02,000\n" : kind == 1 ? "WEBVTT\n\n00:00:01.000 --> 00:00:02.000\n" : SSA_HEAD + "Dialogue: 0:00:01.00,0:00:02.00,";
		for (int i = 0; i < (vp_tier() ? 8 : 5); ++i) doc += i < 1 ? non_nul("byte") : (char) vp_char("byte", "\n\ra1", 4);
		compare(kind, doc);
		break;
	}
	case 1: {
		int kind = vp_choice("reader", 3), last = vp_choice("last newline", 3), where = vp_choice("lines", 3);
		char c = non_nul("byte");
		std::vector<std::string> l = lines(kind, std::string("p") + c + "q");
		static char const* const ends[4] = {"\n", "\r\n", "\r\r\n", "\n\n"};
		std::string doc;
		for (size_t i = 0; i < l.size(); ++i) {
			doc += l[i];
			if (i + 1 == l.size()) doc += last == 0 ? "" : last == 1 ? "\n" : "\r\n";
			else doc += (int) i % 3 == where ? ends[vp_choice("ending", 4)] : "\n";
		}
		compare(kind, doc);
		vp_cover("end");
		break;
	}
	case 2: {
		static int const lengths[14] = {200, 253, 254, 255, 256, 257, 509, 510, 511, 512, 764, 765, 1020, 1021};
		int kind = vp_choice("reader", 3), n = lengths[vp_choice("length", 14)], end = vp_choice("ending", 3), at = vp_choice("place", 3);
		std::string t (n, 'x');
		int k = at == 0 ? 253 : at == 1 ? 254 : 255;
		if (k < n) t[k] = non_nul("byte"); else t[n - 1] = non_nul("byte");
		std::vector<std::string> l = lines(kind, t);
		std::string doc;
		size_t big = kind == 0 ? 2 : kind == 1 ? 3 : 7;
		if (end == 2) l.resize(big + 1);
		for (size_t i = 0; i < l.size(); ++i) doc += l[i] + (i == big ? (end == 0 ? "\n" : end == 1 ? "\r\n" : "") : "\n");
		compare(kind, doc);
		vp_cover("end");
		break;
	}
	case 3: {
		int kind = vp_choice("reader", 3), e = vp_choice("error", 4), nl = vp_choice("CRLF", 2), long_line = vp_choice("long line before", 2);
		std::vector<std::string> l = lines(kind, long_line ? std::string(300, 'y') : "y");
		char c = non_nul("byte");
		vp_assume(c != '\n');
		switch (e) {
		case 0: l[kind == 1 ? 7 : kind == 0 ? 6 : 8] = std::string("bad") + c + "-->line"; break;
		case 1: l[kind == 1 ? 7 : kind == 0 ? 6 : 8] = std::string(kind == 2 ? "Dialogue: " : "") + "0" + c + ":00:01,x00 --> 00:00:02,000"; break;
		case 2: l[0] = std::string(1, c); break;
		case 3: l[kind == 1 ? 2 : kind == 0 ? 1 : 4] += std::string(" x") + c; break;
		}
		std::string doc;
		for (size_t i = 0; i < l.size(); ++i) doc += l[i] + (nl ? "\r\n" : "\n");
		compare(kind, doc);
		break;
	}
	case 4: {
		int n = vp_choice("blocks", 3), cut = vp_choice("cut", 13);
		std::string f (1024 + 128 * n, ' ');
		f.replace(0, 3, "850");
		f.replace(3, 8, "STL25.01");
		f.replace(11, 1, "0"); f.replace(12, 2, "00"); f.replace(14, 2, "09");
		f.replace(224, 12, "010203040506");
		f.replace(236, 2, "01");
		f.replace(238, 5, digits(n, 5)); f.replace(243, 5, digits(n, 5)); f.replace(248, 3, "001"); f.replace(251, 2, "40"); f.replace(253, 2, "23");
		f.replace(255, 1, "1"); f.replace(256, 8, "00000000"); f.replace(264, 8, "00000000"); f.replace(272, 1, "1"); f.replace(273, 1, "1"); f.replace(274, 3, "GBR");
		for (int i = 0; i < n; ++i) {
			std::string t (128, '\x8f');
			t[0] = 0; t[1] = (char) i; t[2] = 0; t[3] = (char) 0xff; t[4] = 0;
			for (int j = 0; j < 8; ++j) t[5 + j] = (char) (j % 4 == 2 ? i + 1 : 0);
			t[13] = (char) (20 - i); t[14] = 2; t[15] = 0;
			t[16] = 'a';
			t[17] = i == 0 ? (char) vp_byte("byte") : 'b';
			t[18] = i == n - 1 && cut == 12 ? (char) vp_char("byte", "\x8a\x80z", 3) : 'c';
			f.replace(1024 + 128 * i, 128, t);
		}
		static int const cuts[13] = {0, 1, 10, 11, 255, 1023, 1024, 1025, 1040, 1151, 1152, 1153, 1279};
		if (cut < 12) { if (cuts[cut] >= (int) f.size()) vp_stop(); f.resize(cuts[cut]); }
		compare(3, f);
		break;
	}
	case 5: {
		int kind = vp_choice("reader", 3), nl = vp_choice("CRLF", 2);
		std::string e = nl ? "\r\n" : "\n", doc = kind == 0 ? "" : kind == 1 ? "WEBVTT" + e + e : SSA_HEAD;
		for (int i = 0; i < 60; ++i) {
			std::string t (1 + i * 37 % 600, (char) ('a' + i % 26));
			if (i == 30) t[0] = non_nul("byte");
			if (kind == 2) doc += "Dialogue: 0:00:01.00,0:00:02.00," + t + e + (i % 7 ? "" : e);
			else doc += (kind == 0 ? "1" + e + "00:00:01,000 --> 00:00:02,000" : "00:00:01.000 --> 00:00:02.000") + e + t + e + e;
		}
		compare(kind, doc);
		vp_cover("end");
		break;
	}
	}
}
