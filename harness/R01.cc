//@ case 0 SubRip: any bytes anywhere :: a document with every kind of markup, 2 bytes (3 in the thorough tier) any at every place, overwritten or inserted [quick=100] [samples=400]
//@ case 1 SubRip: cut short :: the same document cut after every byte, with one any byte after the cut or none, from a string or a file [quick=60] [samples=400]
//@ case 2 SubRip: any text :: a cue's text of 0..4 any bytes (5 in the thorough tier) after each of 14 beginnings of a tag [quick=100] [samples=400]
//@ case 3 SubRip/WebVTT: any time line :: 0..4 any bytes (5) as the whole of a time line or instead of a part of one; convert_time() of the same [quick=100] [samples=200]
//@ case 4 WebVTT: any bytes anywhere, cut short :: a document of every kind of block, 2 bytes (3) any at every place, or cut there [quick=80] [samples=400]
//@ case 5 SSA: any bytes anywhere :: a script with every section, 2 bytes any at every place, overwritten or inserted [quick=150] [samples=400]
//@ case 6 SSA: cut short :: the same script cut after every byte, with one any byte after the cut or none, from a string or a file [quick=60] [samples=400]
//@ case 7 SSA: any tag or line :: tags of 0..3 any bytes (4) after each of 13 beginnings; lines of 0..4 any bytes (5) [quick=100] [samples=400]
//@ case 8 STL text: any bytes anywhere, cut short :: a file of every kind of line, 2 bytes (3) any at every place, or cut there [quick=80] [samples=400]
//@ case 9 EBU STL: any bytes anywhere :: a file of 2 blocks, 1 any byte at every place of the GSI and of a TTI block, after one of 5 others or not, 2 at every place of the TTI header [quick=100] [samples=600]
//@ case 10 EBU STL: cut short, wrong counts :: the file cut after every byte, from a stream or a file; 40 numbers of blocks, a byte of them any [quick=60] [samples=400]
//@ case 11 colours :: from_rgb_hex() and from_rgba_hex() of 0..5 any bytes (6) or 6..9 hex digits with any two bytes [quick=80] [samples=400]
//@ case 12 ISO 6937 :: 0..1 any bytes (2) after 0..2 fixed ones; any character up to U+2133, after another or not, the other way [quick=60] [samples=400]
//@ case 13 whole documents of any bytes :: 0..4 any bytes (5) to each reader, after a header or nothing [quick=100] [samples=400]
//@ case 14 long lines :: lines, tags, colours and numbers of 1..4 or around 256, 512, 1024 or 4096 bytes, any byte in them, to each text reader from a string or a file [quick=100] [samples=600]
//@ cover 0: returned, refused
//@ cover 1: returned, refused
//@ cover 2: returned, refused
//@ cover 3: returned, refused
//@ cover 4: returned, refused
//@ cover 5: returned, refused
//@ cover 6: returned, refused
//@ cover 7: returned, refused
//@ cover 8: returned, refused
//@ cover 9: returned, refused
//@ cover 10: returned, refused
//@ cover 11: returned, refused
//@ cover 12: returned
//@ cover 13: returned, refused
//@ cover 14: returned, refused
//@ assume a path that has not finished after 20 s of CPU time counts as not terminating
#include "stl.h"
#include "colour.h"
#include "iso6937.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "ssa_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "exceptions.h"
#include <cstdio>
using namespace sub;

// look at all that a reader returns
static void walk (std::vector<RawSubtitle> const& subs)
{
	vp_observe(subs.size());
	for (auto const& s: subs) {
		vp_observe_str(s.text);
		if (s.font) vp_observe_str(*s.font);
		vp_observe((s.bold ? 1 : 0) | (s.italic ? 2 : 0) | (s.underline ? 4 : 0));
		vp_observe(s.from.seconds());
		vp_observe(s.to.seconds());
		if (s.vertical_position.line) vp_observe(*s.vertical_position.line);
		if (s.vertical_position.lines) vp_observe(*s.vertical_position.lines);
		if (s.vertical_position.reference) vp_observe(*s.vertical_position.reference);
		vp_observe(s.horizontal_position.reference);
	}
}

enum { SRT, VTT, SSA, TXT, EBU };

static void attempt (int what, std::string const& doc, int file)
{
	try {
		if (file && what != TXT) {
			vp_vfs_put("vp_doc", doc.data(), doc.size());
			FILE* f = fopen("vp_doc", "rb");
			try {
				switch (what) {
				case SRT: { SubripReader r (f); walk(r.subtitles()); break; }
				case VTT: { WebVTTReader r (f); walk(r.subtitles()); break; }
				case SSA: { SSAReader r (f); walk(r.subtitles()); break; }
				case EBU: { STLBinaryReader r (f); walk(r.subtitles()); vp_observe(r.metadata().size()); break; }
				}
			} catch (...) { fclose(f); throw; }
			fclose(f);
		} else {
			std::istringstream s (doc);
			switch (what) {
			case SRT: { SubripReader r (doc); walk(r.subtitles()); break; }
			case VTT: { WebVTTReader r (doc); walk(r.subtitles()); break; }
			case SSA: { SSAReader r (doc); walk(r.subtitles()); break; }
			case TXT: { STLTextReader r (s); walk(r.subtitles()); break; }
			case EBU: { STLBinaryReader r (s); walk(r.subtitles()); vp_observe(r.metadata().size()); break; }
			}
		}
		vp_cover("returned");
	} catch (std::exception& e) {
		vp_cover("refused");
		vp_observe(1000);
	} catch (...) {
		vp_fail("the exception is not derived from std::exception");
	}
}

static std::string any (int n)
{
	std::string s;
	for (int i = 0; i < n; ++i) s += (char) vp_byte("byte");
	return s;
}

// n any bytes over those at `at`, or between them
static std::string damage (std::string const& doc, int at, int n, int insert)
{
	std::string const rest = insert ? doc.substr(at) : at + n < (int) doc.size() ? doc.substr(at + n) : std::string();
	return doc.substr(0, at) + any(n) + rest;
}

static int place (char const* name, int size)
{
	int const a = size > 128 ? vp_choice(name, (size + 127) / 128) * 128 + vp_choice(name, 128) : vp_choice(name, size);
	if (a >= size) vp_stop();
	return a;
}

static std::string const srt =
	"\xef\xbb\xbf" "1\r\n00:00:01,000 --> 00:00:02,000 X1:1 X2:2 Y1:3 Y2:4\r\n<b>a</b>{i}b<font color=\"#aabbcc\">c</font>\n"
	"{\\an8}d\xe2\x80\xa8" "e\xe2\x80\xab" "f<font color='#aabbccdd'>g\n\n"
	"2\n0:0:3,4 --> 0:0:5,6\n<font color=\"rgba(1, 2,3,4)\">x</font></font>";
static std::string const vtt =
	"\xef\xbb\xbfWEBVTT x\n\nNOTE a\nb\n\nSTYLE\nid\n00:00:01.000 --> 00:00:02.000\nd\xe2\x80\xa8" "e\n<i>f</i>\n\n"
	"0:0:3.4 --> 0:0:5.6 a b c d\nlast";
static std::string const ssa =
	"[Script Info]\n; c\nPlayResX: 320\nPlayResY: 240\n\n[V4+ Styles]\n"
	"Format: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, BorderStyle, Alignment, MarginL, MarginR, MarginV\n"
	"Style: *D,A,20,&H00FF00FF,65280,-1,1,5,1,2,3\n[Events]\n"
	"Format: Layer, Start, End, Style, MarginL, MarginV, Text\n"
	"Dialogue: 0,0:00:01.00,0:00:02.00,D,4,5,{\\pos(1,2)}a{\\an7\\i1}b,c\\N{\\c&H01FF02&\\fs9}d{\\c}e\n[Fonts]\nx\n";
static std::string const txt =
	"// c\n$FontName = Arial\n$FontSize = 12\n$Bold = True\n00:00:01:02 , 00:00:03:04 , ^Ba|^Ib^U\n\n0:0:5:6,0:0:7:8,c";

static int tier3 () { return vp_tier() ? 3 : 2; }

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		int insert = vp_choice("insert", 2), at = place("at", srt.size());
		attempt(SRT, damage(srt, at, insert ? 1 : tier3(), insert), 0);
		break;
	}
	case 1: {
		int file = vp_choice("file", 2), at = place("at", srt.size()), n = vp_choice("any", 2);
		attempt(SRT, srt.substr(0, at) + any(n), file);
		break;
	}
	case 2: {
		static char const* const begin[14] = {"", "<", "{", "<b", "</", "</font", "<font", "<font color=", "<font color=\"#", "<font color=\"#12345", "<font color=\"rgba(", "{\\", "{\\c", "\xe2\x80"};
		int b = vp_choice("beginning", 14), n = vp_choice("length", vp_tier() ? 6 : b >= 6 && b <= 10 ? 4 : 5), end = vp_choice("end", 3);
		if (end && n > 3) vp_stop();
		static char const* const ends[3] = {"", ">", "}z"};
		attempt(SRT, std::string("1\n00:00:01,000 --> 00:00:02,000\na") + begin[b] + any(n) + ends[end], 0);
		break;
	}
	case 3: {
		int n = vp_choice("length", vp_tier() ? 6 : 5), part = vp_choice("part", 7);
		if (n > 3 && part > 0) vp_stop();
		std::string const a = any(n);
		static char const* const pre[7] = {"", "00:00:01,000 --> ", "", "00:", "00:00:", "00:00:01,", "00:00:01,000"};
		static char const* const post[7] = {"", "", " --> 00:00:02,000", ":01,000 --> 00:00:02,000", ",000 --> 00:00:02,000", " --> 00:00:02,000", "00:00:02,000"};
		std::string line = pre[part] + a + post[part];
		if (vp_choice("call", 2)) {
			std::string expected;
			try {
				boost::optional<Time> t = SubripReader::convert_time(line, vp_choice("separator", 2) ? "." : ",", vp_choice("expected", 2) ? &expected : 0);
				vp_observe(t ? t->seconds() : -1);
				vp_observe_str(expected);
				vp_cover("returned");
			} catch (std::exception&) {
				vp_fail("convert_time() throws");
			}
		} else attempt(SRT, "1\n" + line + "\ntext\n", 0);
		break;
	}
	case 4: {
		int how = vp_choice("how", 4), at = place("at", vtt.size());
		attempt(VTT, how == 3 ? vtt.substr(0, at) : how == 2 ? vtt.substr(0, at) + any(1) : damage(vtt, at, how ? 1 : tier3(), how), how > 1 ? vp_choice("file", 2) : 0);
		break;
	}
	case 5: {
		int insert = vp_choice("insert", 2), at = place("at", ssa.size());
		attempt(SSA, damage(ssa, at, insert ? 1 : 2, insert), 0);
		break;
	}
	case 6: {
		int file = vp_choice("file", 2), at = place("at", ssa.size()), n = vp_choice("any", 2);
		attempt(SSA, ssa.substr(0, at) + any(n), file);
		break;
	}
	case 7: {
		static char const* const begin[13] = {"\\", "\\c", "\\c&", "\\c&H", "\\pos", "\\pos(", "\\pos(1,", "\\fs", "\\fsc", "\\an", "\\i", "", "\\c&H010203"};
		int b = vp_choice("beginning", 15);
		try {
			if (b < 13) {
				int n = vp_choice("length", vp_tier() ? 5 : 4);
				RawSubtitle s;
				SSAReader::parse_tag(s, begin[b] + any(n), SSAReader::Context(vp_choice("res", 2) * 288, vp_choice("res", 2) * 288, Colour(1, 1, 1)));
				walk(std::vector<RawSubtitle>(1, s));
			} else {
				int n = vp_choice("length", vp_tier() ? 6 : 5);
				RawSubtitle s;
				if (b == 13) s.vertical_position.reference = TOP_OF_SUBTITLE;
				walk(SSAReader::parse_line(s, any(n), SSAReader::Context(vp_choice("res", 2) * 288, vp_choice("res", 2) * 288, Colour(1, 1, 1))));
			}
			vp_cover("returned");
		} catch (std::exception&) {
			vp_cover("refused");
		}
		break;
	}
	case 8: {
		int how = vp_choice("how", 4), at = place("at", txt.size());
		attempt(TXT, how == 3 ? txt.substr(0, at) : how == 2 ? txt.substr(0, at) + any(1) : damage(txt, at, how ? 1 : tier3(), how), 0);
		break;
	}
	case 9: {
		Tti t;
		t.text = "\x80" "ab\x8a\xc1" "e\x01" "c\x83";
		std::string f = stl_gsi(2) + t.bytes() + t.bytes();
		int at = place("at", 1024 + 128);
		if (at > 1024 + 16 + 12 && at < 1024 + 124 && !vp_tier()) vp_stop();
		f[at] = (char) vp_byte("byte");
		if (at >= 1024 && at < 1024 + 15) f[at + 1] = (char) vp_byte("byte");
		if (at >= 1024 + 16) f[at - 1] = "\xc1\xcf\x80\x8a" "a"[vp_choice("before", 5)];
		attempt(EBU, f, 0);
		break;
	}
	case 10: {
		Tti t;
		t.text = "a\x8a" "b";
		std::string f = stl_gsi(2) + t.bytes() + t.bytes();
		int what = vp_choice("what", 2);
		if (what == 0) {
			int file = vp_choice("file", 2), at = place("at", 1024 + 257);
			attempt(EBU, f.substr(0, at), file);
		} else {
			static char const* const n[8] = {"00000", "    2", "2    ", "-0001", "99999", "00003", "x0001", "+0001"};
			f.replace(238, 5, n[vp_choice("number", 8)]);
			f[238 + vp_choice("at", 5)] = (char) vp_byte("byte");
			attempt(EBU, f, 0);
		}
		break;
	}
	case 11: {
		int n = vp_choice("length", 10), m = vp_tier() ? 6 : 5;
		std::string s;
		if (n <= m) s = any(n);
		else {
			s = std::string("1a2B3c4D5").substr(0, n);
			int at = vp_choice("at", n - 1);
			s[at] = (char) vp_byte("byte"); s[at + 1] = (char) vp_byte("byte");
		}
		try {
			Colour c = vp_choice("alpha", 2) ? Colour::from_rgba_hex(s) : Colour::from_rgb_hex(s);
			vp_observe(c.r == c.g);
			vp_cover("returned");
		} catch (std::exception&) {
			vp_cover("refused");
		}
		break;
	}
	case 12: {
		try {
			if (vp_choice("direction", 2)) {
				static char const* const begin[5] = {"", "a", "\xc1", "\xc1\xc2", "a\xcf"};
				std::string s = begin[vp_choice("beginning", 5)] + any(vp_choice("length", vp_tier() ? 3 : 2));
				std::wstring w = iso6937_to_utf16(s);
				vp_observe(w.size());
			} else {
				std::wstring w;
				int n = vp_choice("length", 3);
				if (n == 2) w += L"a\x301\x2014"[vp_choice("before", 3)];
				if (n) w += (wchar_t) (vp_choice("block", 34) * 250 + vp_range("character", 0, 249));
				vp_observe(utf16_to_iso6937(w).size());
			}
			vp_cover("returned");
		} catch (std::exception&) {
			vp_fail("a conversion throws");
		}
		break;
	}
	case 13: {
		static char const* const begin[12] = {"", "\xef\xbb", "1\n", "1\n00:00:01,000 --> 00:00:02,000\n", "WEBVTT", "WEBVTT\n", "[Events]\n", "[V4+ Styles]\n", "[Events]\nFormat: Text\nDialogue: ", "[V4+ Styles]\nFormat: Name\nStyle: ", "$FontSize=", "0:0:0:0,0:0:0:0,"};
		static int const what[12] = {-1, -1, SRT, SRT, VTT, VTT, SSA, SSA, SSA, SSA, TXT, TXT};
		int b = vp_choice("beginning", 12), w = what[b] < 0 ? vp_choice("reader", 5) : what[b];
		int n = vp_choice("length", vp_tier() ? 6 : 5);
		attempt(w, begin[b] + any(n), w == TXT ? 0 : vp_choice("file", 2));
		break;
	}
	case 14: {
		int w = vp_choice("reader", 4), where = vp_choice("where", 6), file = w == TXT ? 0 : vp_choice("file", 2);
		static int const base[5] = {4, 256, 512, 1024, 4096};
		int b = vp_choice("base", 5);
		int size = base[b] - 3 + vp_choice("size", b < 2 || vp_tier() ? 6 : 4);
		if (size < 1) vp_stop();
		static char const fill[6] = {'x', '1', ' ', '<', '\\', ':'};
		int f = vp_choice("fill", 6);
		// a long line of each kind, and a byte of it any
		if (!vp_tier() && f > 1 && (b + f) % 5 != 0) vp_stop();
		std::string l (size, fill[f]);
		l[vp_tier() && vp_choice("at", 2) ? size - 1 : size / 2] = (char) vp_byte("byte");
		static char const* const pre[4][6] = {
			{"", "1\n", "1\n00:00:01,000 --> 00:00:02,000\n", "1\n00:00:01,000 --> 00:00:02,000\n<font color=\"#", "1\n00:00:0", "1\n00:00:01,000 --> 00:00:02,000\n{\\"},
			{"", "WEBVTT\n", "WEBVTT\n00:00:01.000 --> 00:00:02.000\n", "WEBVTT\nNOTE ", "WEBVTT\n00:00:01.", "WEBVTT"},
			{"", "[Script Info]\nPlayResX:", "[Events]\nFormat: Text\nDialogue:", "[V4+ Styles]\nFormat:Name,PrimaryColour\nStyle: x,&H", "[Events]\nFormat: Start,Text\nDialogue:0:0:0.", "[Events]\nFormat: Text\nDialogue:{\\c"},
			{"", "$FontSize=", "0:0:0:0,0:0:0:0,", "$FontName=", "0:0:0:", "//"}};
		static char const* const post[4][6] = {
			{"", "\n", "\n", "\">x", ",0 --> 0:0:2,0\nx", "}x"},
			{"", "\n", "\n", "\n", " --> 0:0:2.0\nx", "\n"},
			{"", "\n[Events]\nFormat: Text\nDialogue: x", "\n", "\n", ",x\n", "}x"},
			{"", "\n0:0:0:0,0:0:0:0,x", "\n", "\n0:0:0:0,0:0:0:0,x", ",0:0:0:0,x", "\n"}};
		attempt(w, pre[w][where] + l + post[w][where], file);
		break;
	}
	}
}
