//@ src colour.cc effect.cc exceptions.cc font_size.cc horizontal_position.cc iso6937.cc iso6937_tables.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc stl_binary_reader.cc stl_binary_tables.cc stl_binary_writer.cc stl_text_reader.cc stl_util.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc web_vtt_reader.cc
//@ case 0 after another SubRip document :: a document of every kind of markup with any byte at every place (another of 6 inserted before it or not in the thorough tier), then eleven documents that are refused and one of each operation [quick=150]
//@ case 1 after another WebVTT document :: the same for WebVTT [quick=100]
//@ case 2 after another SSA document :: the same for SSA [quick=150]
//@ case 3 after another STL text document :: the same for STL text [quick=100]
//@ case 4 after another EBU STL file :: a file of 2 blocks with any byte at every place of the text, the block's header and the coded fields of the GSI [quick=150]
//@ case 5 after documents cut short :: each of the five documents cut after every byte [quick=100]
//@ case 6 after conversions and writing :: any byte in texts written, dumped, encoded and decoded [quick=100]
//@ case 7 any sequence :: every sequence of 3 (4 in the thorough tier) of the 10 operations, each with any byte at one place [quick=200]
//@ case 8 readers side by side :: subtitles of one reader, collected, unchanged by any of the other operations; the same list written twice; two readers on one stream each read in turn [quick=100]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ cover 8: end
//@ assume the reference results are those of fixed documents, written down by hand, so that a first operation is examined as much as a later one
#include "stl.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "ssa_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "iso6937.h"
#include "collect.h"
#include "util.h"
#include "exceptions.h"
using namespace sub;

enum { SRT, VTT, ASS, TXT, EBU, WRITE, ENCODE, DECODE, DUMP, COLLECT, OPS };

static std::vector<RawSubtitle> read_any (int what, std::string const& doc)
{
	switch (what) {
	case SRT: return SubripReader(doc).subtitles();
	case VTT: return WebVTTReader(doc).subtitles();
	case ASS: return SSAReader(doc).subtitles();
	case TXT: { std::istringstream s (doc); return STLTextReader(s).subtitles(); }
	default: { std::istringstream s (doc); return STLBinaryReader(s).subtitles(); }
	}
}

static std::string dec (ll v) { std::string s; bool neg = v < 0; if (neg) v = -v; do { s = (char) ('0' + v % 10) + s; v /= 10; } while (v); return neg ? "-" + s : s; }

// everything that a reader says of a run, in one line
static std::string print (RawSubtitle const& r)
{
	std::string s = "'" + r.text + "' ";
	s += dec(r.from.hours() * 3600 + r.from.minutes() * 60 + r.from.seconds()) + "-" + dec(r.to.hours() * 3600 + r.to.minutes() * 60 + r.to.seconds()) + " ";
	s += r.bold ? "B" : "b"; s += r.italic ? "I" : "i"; s += r.underline ? "U" : "u";
	s += " " + dec((ll) (r.colour.r * 255 + 0.5)) + "," + dec((ll) (r.colour.g * 255 + 0.5)) + "," + dec((ll) (r.colour.b * 255 + 0.5));
	if (r.font) s += " " + *r.font;
	if (r.font_size.points()) s += " " + dec(*r.font_size.points()) + "pt";
	if (r.font_size.proportional()) s += " " + dec((ll) (*r.font_size.proportional() * 1000 + 0.5)) + "/1000";
	if (r.effect) s += *r.effect == SHADOW ? " shadow" : " border";
	if (r.vertical_position.line) s += " line " + dec(*r.vertical_position.line);
	if (r.vertical_position.lines) s += " of " + dec(*r.vertical_position.lines);
	if (r.vertical_position.proportional) s += " at " + dec((ll) (*r.vertical_position.proportional * 1000 + 0.5));
	if (r.vertical_position.reference) s += " ref " + dec(*r.vertical_position.reference);
	s += " h " + dec((ll) (r.horizontal_position.proportional * 1000 + 0.5)) + " ref " + dec(r.horizontal_position.reference) + "\n";
	return s;
}
static std::string print (std::vector<RawSubtitle> const& v)
{
	std::string s;
	for (size_t i = 0; i < v.size(); ++i) s += print(v[i]);
	return s;
}

// documents with plain settings and little in them, so that anything left over from before shows
static std::string const reference[5] = {
	"1\n00:00:01,000 --> 00:00:02,000\nab<i>c</i>\nd\n\n2\n00:00:03,000 --> 00:00:04,000\n<font color=\"#ff8000\">e</font>f<font color=\"rgba(1,2,3,4)\">g\n",
	"WEBVTT\n\n00:00:01.000 --> 00:00:02.000\nab\nd\n\n00:00:03.000 --> 00:00:04.000\ne\n",
	"[V4+ Styles]\nFormat: Name, Fontsize\nStyle: Small,28.8\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Small,ab{\\i1}c\nDialogue: 0:00:03.00,0:00:04.00,Other,e{\\c&H0000ff&\\fs144}f{\\c}g\n",
	"00:00:01:00 , 00:00:02:00 ,ab^Ic^I|d\n00:00:03:00,00:00:04:00,e\n",
	""
};
static std::string ebu_reference ()
{
	std::string f = stl_gsi(2);
	Tti t;
	for (int i = 0; i < 4; ++i) t.from[i] = t.to[i] = 0;
	t.from[2] = 1; t.to[2] = 2;
	t.text = "ab\x80" "c\x81\x8a" "d";
	f += t.bytes();
	t.from[2] = 3; t.to[2] = 4;
	t.text = "e\x01" "f";
	return f + t.bytes();
}
static char const* const expected[5] = {
	"'ab' 1-2 biu 255,255,255 line 0 ref 3 h 0 ref 1\n'c' 1-2 bIu 255,255,255 line 0 ref 3 h 0 ref 1\n'd' 1-2 biu 255,255,255 line 1 ref 3 h 0 ref 1\n'e' 3-4 biu 255,128,0 line 0 ref 3 h 0 ref 1\n'f' 3-4 biu 255,255,255 line 0 ref 3 h 0 ref 1\n'g' 3-4 biu 1,2,3 line 0 ref 3 h 0 ref 1\n",
	"'ab' 1-2 biu 255,255,255 line 0 ref 3 h 0 ref 1\n'd' 1-2 biu 255,255,255 line 1 ref 3 h 0 ref 1\n'e' 3-4 biu 255,255,255 line 0 ref 3 h 0 ref 1\n",
	"'ab' 1-2 biu 255,255,255 100/1000 at 0 ref 2 h 0 ref 1\n'c' 1-2 bIu 255,255,255 100/1000 at 0 ref 2 h 0 ref 1\n'e' 3-4 biu 255,255,255 250/1000 at 0 ref 2 h 0 ref 1\n'f' 3-4 biu 255,0,0 500/1000 at 0 ref 2 h 0 ref 1\n'g' 3-4 biu 255,255,255 500/1000 at 0 ref 2 h 0 ref 1\n",
	"'ab' 1-2 biu 255,255,255 line 0 ref 3 h 0 ref 1\n'c' 1-2 bIu 255,255,255 line 0 ref 3 h 0 ref 1\n'd' 1-2 biu 255,255,255 line 1 ref 3 h 0 ref 1\n'e' 3-4 biu 255,255,255 line 0 ref 3 h 0 ref 1\n",
	"'ab' 1-2 biu 255,255,255 line 20 of 23 ref 0 h 0 ref 1\n'c' 1-2 bIu 255,255,255 line 20 of 23 ref 0 h 0 ref 1\n'd' 1-2 biu 255,255,255 line 21 of 23 ref 0 h 0 ref 1\n'e' 3-4 biu 255,255,255 line 20 of 23 ref 0 h 0 ref 1\n'f' 3-4 biu 255,0,0 line 20 of 23 ref 0 h 0 ref 1\n"
};

static Subtitle subtitle (std::string const& text, int second)
{
	RawSubtitle r;
	r.text = text;
	r.from = Time::from_hms(0, 0, second, 0);
	r.to = Time::from_hms(0, 0, second + 1, 0);
	r.vertical_position.line = 20;
	r.vertical_position.lines = 23;
	r.vertical_position.reference = TOP_OF_SCREEN;
	return Subtitle(r);
}

static std::string written (std::vector<Subtitle> const& v)
{
	write_stl_binary(v, 25, LANGUAGE_ENGLISH, "T", "", "", "", "", "", "140212", "140213", 1, "GBR", "", "", "", "vp_out.stl");
	long n = vp_vfs_size("vp_out.stl");
	return std::string((char const*) vp_vfs_data("vp_out.stl"), n < 0 ? 0 : n);
}

class Fake : public Reader
{
public:
	Fake (std::vector<RawSubtitle> const& s) { _subs = s; }
	std::map<std::string, std::string> metadata () const { std::map<std::string, std::string> m; m["K"] = "V"; return m; }
};

static std::vector<RawSubtitle> raws (std::string const& text)
{
	std::vector<RawSubtitle> v;
	for (int i = 0; i < 2; ++i) {
		RawSubtitle r;
		r.text = i ? "e" : text;
		r.from = Time::from_hms(0, 0, 3 - 2 * i, 0);
		r.to = Time::from_hms(0, 0, 4 - 2 * i, 0);
		r.vertical_position.line = i;
		r.vertical_position.reference = TOP_OF_SUBTITLE;
		r.italic = i;
		v.push_back(r);
	}
	return v;
}

// the operation on what is fixed has its fixed result
static void check (int op)
{
	std::string got, want;
	try {
		switch (op) {
		case SRT: case VTT: case ASS: case TXT: case EBU: {
			std::vector<RawSubtitle> r = read_any(op, op == EBU ? ebu_reference() : reference[op]), k;
			// runs with no text do not count
			for (size_t i = 0; i < r.size(); ++i) if (!r[i].text.empty()) k.push_back(r[i]);
			got = print(k);
			want = expected[op];
			break;
		}
		case WRITE: {
			std::vector<Subtitle> v;
			v.push_back(subtitle("a\xc3\xa9", 1));
			v.push_back(subtitle("e", 3));
			got = written(v);
			vp_assert(got.size() == 1024 + 256, "a file written after other operations has another length");
			if (got.size() != 1024 + 256) vp_stop();
			want = got;
			static char const* const t[2] = {"a\xc2" "e", "e"};
			for (int i = 0; i < 2; ++i) {
				std::string x = t[i];
				x.resize(112, '\x8f');
				want.replace(1024 + 128 * i + 3, 1, "\xff");
				want.replace(1024 + 128 * i + 5, 11, std::string("\0\0\1\0\0\0\2\0\x14\2\0", 11));
				want[1024 + 128 * i + 7] = (char) (1 + 2 * i);
				want[1024 + 128 * i + 11] = (char) (2 + 2 * i);
				want.replace(1024 + 128 * i + 16, 112, x);
			}
			want.replace(0, 16, "850STL25.0100009");
			want.replace(16, 32, "T                               ");
			want.replace(238, 17, "00002000020010223");
			break;
		}
		case ENCODE:
			got = utf16_to_iso6937(std::wstring(L"a\xe9\x142\xe0" "e"));
			want = "a\xc2" "e\xf8\xc1" "ae";
			break;
		case DECODE: {
			std::wstring w = iso6937_to_utf16("a\xc2" "e\xf8\xc1" "ae");
			for (size_t i = 0; i < w.size(); ++i) got += dec(w[i]) + " ";
			want = "97 233 322 224 101 ";
			break;
		}
		case DUMP: {
			std::ostringstream o;
			dump(std::shared_ptr<const Reader>(new Fake(raws("x"))), o);
			got = o.str();
			want = "K: V\nSubtitle 0 at 00:00:01:0 @ 1000/1 -> 00:00:02:0 @ 1000/1\n\t1 lines from top of subtitle\t<i>e</i>\nSubtitle 1 at 00:00:03:0 @ 1000/1 -> 00:00:04:0 @ 1000/1\n\t0 lines from top of subtitle\tx\n";
			break;
		}
		case COLLECT: {
			std::vector<Subtitle> v = collect<std::vector<Subtitle> >(raws("x"));
			for (size_t i = 0; i < v.size(); ++i) got += dec(v[i].lines.size()) + v[i].lines[0].blocks[0].text + dec(v[i].lines[0].blocks.size()) + " ";
			want = "1e1 1x1 ";
			break;
		}
		}
	} catch (std::exception& e) {
		vp_fail("an operation that succeeds on its own fails after others");
		return;
	}
	static char const* const names[OPS] = {"SubRip reading depends on what was done before", "WebVTT reading depends on what was done before", "SSA reading depends on what was done before", "STL text reading depends on what was done before", "EBU STL reading depends on what was done before", "writing depends on what was done before", "encoding depends on what was done before", "decoding depends on what was done before", "dump() depends on what was done before", "collect() depends on what was done before"};
	vp_assert(vp_str_eq(got, want), names[op]);
	vp_observe_str(got);
}


// documents that are refused, whatever was read before: {format, document}
struct Refused { int what; char const* doc; };
static Refused const refused[11] = {
	{ASS, "[Events]\nDialogue: 0:00:01.00,0:00:02.00,Small,ab\n"},
	{VTT, "WEBVTT\n\n1 --> x\nab\n"},
	{ASS, "[V4+ Styles]\nStyle: Small,20\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Small,ab\n"},
	{ASS, "[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,ab\n"},
	{VTT, "00:00:01.000 --> 00:00:02.000\nab\n"},
	{VTT, "WEBVT\n\n00:00:01.000 --> 00:00:02.000\nab\n"},
	{SRT, "1\nnot a time\nab\n"},
	{SRT, "1\n00:00:01,000 --> 00:00:02,000\n<font color=\"#12\">ab\n"},
	{ASS, "[Script Info]\nno colon\n"},
	{EBU, "short"},
	{EBU, ""}
};
static void check_refusals (int first)
{
	for (int k = 0; k < 11; ++k) {
		Refused const& r = refused[(k + first) % 11];
		bool thrown = false;
		try {
			std::vector<RawSubtitle> v = read_any(r.what, r.doc);
		} catch (SubripError& e) {
			thrown = true;
			bool font = std::string(r.doc).find("font") != std::string::npos;
			vp_assert(e.line_number() == (font ? 3 : 2), "the line number of an error depends on what was done before");
			vp_assert(e.context().size() == (size_t) (font ? 3 : 2), "the context of an error depends on what was done before");
			if (!e.context().empty()) vp_assert(vp_str_eq(e.context().front(), "1"), "the context of an error depends on what was done before");
		} catch (WebVTTError& e) {
			thrown = true;
			bool time = std::string(r.doc).find("1 --> x") != std::string::npos;
			vp_assert(e.context().size() == (time ? 3u : 0u), "the context of an error depends on what was done before");
			if (!e.context().empty()) vp_assert(vp_str_eq(e.context().front(), "WEBVTT"), "the context of an error depends on what was done before");
		} catch (std::exception& e) {
			thrown = true;
		}
		vp_assert(thrown, "a document that is refused on its own is accepted after others");
	}
}

// rich documents, to be damaged
static std::string rich (int what)
{
	switch (what) {
	case SRT: return "\xef\xbb\xbf" "1\r\n01:02:03,450 --> 01:02:04,550 X1:1 X2:2 Y1:3 Y2:4\r\n<b>a</b>{u}b<font color=\"#aabbcc\">c</font>\n{\\an8}{\\b1}d\xe2\x80\xa8" "e<font color='#aabbccdd'>g<font color=\"rgba(9,8,7,6)\">h<i>\n";
	case VTT: return "\xef\xbb\xbfWEBVTT x\n\nNOTE n\nm\n\nid\n01:02:03.450 --> 01:02:04.550\na<i>b\xe2\x80\xa8" "c\nd\n";
	case ASS: return "[Script Info]\nPlayResX: 100\nPlayResY: 200\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, BorderStyle, Alignment, MarginV\nStyle: Small,F,20,&H00112233,-1,1,7,9\nStyle: Default,G,10,255,-1,1,5,1\n[Events]\nFormat: Start, End, Style, MarginL, Text\nDialogue: 1:02:03.45,1:02:04.55,Small,5,{\\an5\\i1\\c&H123456&}x\\Ny\n";
	case TXT: return "$FontName = F\n$FontSize = 30\n$Bold = True\n$Italic=True\n$Underlined=True\n//c\n01:02:03:04 , 01:02:04:05 ,a^Bb|c^U\n";
	default: {
		std::string f = stl_gsi(2, "STL30.01", "99");
		Tti t;
		t.text = "\x80\x82\x01" "a\x8a\x07\xc2" "e";
		t.jc = 3; t.vp = 30; t.cs = 1;
		f += t.bytes();
		t.text = "b\x81\xc8";
		return f + t.bytes();
	}
	}
}

static void attempt (int what, std::string const& doc)
{
	try { vp_observe(read_any(what, doc).size()); } catch (std::exception&) { vp_observe(1000); }
}

// something done with any byte
static void perform (int op, char c)
{
	try {
		switch (op) {
		case SRT: { std::string d = rich(SRT); d[86] = c; attempt(op, d); break; }
		case VTT: { std::string d = rich(VTT); d[12] = c; attempt(op, d); break; }
		case ASS: { std::string d = rich(ASS); d[d.size() - 9] = c; attempt(op, d); break; }
		case TXT: { std::string d = rich(TXT); d[d.size() - 3] = c; attempt(op, d); break; }
		case EBU: { std::string d = rich(EBU); d[1024 + 18] = c; attempt(op, d); break; }
		case WRITE: {
			std::vector<Subtitle> v;
			for (int i = 0; i < 3; ++i) {
				// more, longer and other than what is written for reference
				v.push_back(subtitle(std::string("qrstuvw\xc3\xa8") + c + (i == 1 ? std::string(120, 'x') : "xyz"), 3 + i));
				Line& l = v.back().lines[0];
				l.blocks[0].italic = l.blocks[0].underline = true;
				l.horizontal_position.reference = i ? LEFT_OF_SCREEN : RIGHT_OF_SCREEN;
				v.back().lines.push_back(l);
				v.back().lines[1].vertical_position.line = 22;
				v.back().from = Time::from_hms(1, 2, 3 + i, 456);
			}
			write_stl_binary(v, 30, LANGUAGE_FRENCH, "Title", "Episode", "Translated", "Episode 2", "Translator", "Contact", "990102", "990103", 42, "FRA", "Publisher", "Editor", "Details", "vp_out.stl");
			vp_observe(vp_vfs_size("vp_out.stl"));
			break;
		}
		case ENCODE: { std::wstring w = L"q\x0301"; w += (wchar_t) (unsigned char) c; vp_observe(utf16_to_iso6937(w).size()); break; }
		case DECODE: { std::string s = "q"; s += c; vp_observe(iso6937_to_utf16(s).size()); break; }
		case DUMP: { std::ostringstream o; std::vector<RawSubtitle> r = raws(std::string(1, c)); r[0].underline = true; dump(std::shared_ptr<const Reader>(new Fake(r)), o); vp_observe(o.str().size()); break; }
		case COLLECT: { std::vector<RawSubtitle> r = raws("q"); r[0].from = Time::from_hms(0, 0, (unsigned char) c, 0); vp_observe(collect<std::vector<Subtitle> >(r).size()); break; }
		}
	} catch (std::exception&) {
		vp_observe(1000);
	}
}

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: case 1: case 2: case 3: {
		int what = vp_case();
		std::string d = rich(what);
		int at = vp_choice("place", (int) d.size());
		d[at] = (char) vp_byte("byte");
		if (vp_tier() && vp_choice("another", 2)) d.insert(at, 1, (char) vp_char("inserted", "\n<{:,\xff", 6));
		attempt(what, d);
		check_refusals(what);
		for (int i = 0; i < OPS; ++i) check((i + what) % OPS);
		vp_cover("end");
		break;
	}
	case 4: {
		std::string d = rich(EBU);
		static int const coded[24] = {0, 3, 5, 6, 9, 11, 12, 13, 14, 15, 16, 236, 238, 241, 242, 243, 250, 251, 253, 254, 255, 272, 273, 274};
		int k = vp_choice("place", 24 + 30 + 20);
		int at = k < 24 ? coded[k] : k < 54 ? 1024 + k - 24 : 1024 + 128 + k - 54;
		d[at] = (char) vp_byte("byte");
		attempt(EBU, d);
		check_refusals(EBU);
		for (int i = 0; i < OPS; ++i) check((i + EBU) % OPS);
		vp_cover("end");
		break;
	}
	case 5: {
		int what = vp_choice("format", 5);
		std::string d = rich(what);
		int n;
		if (what == EBU) { static int const cut[12] = {0, 1, 3, 11, 500, 1023, 1024, 1025, 1040, 1151, 1152, 1200}; n = cut[vp_choice("length", 12)]; }
		else { n = vp_choice("length, hundreds", 5) * 100 + vp_choice("length", 100); if (n >= (int) d.size()) vp_stop(); }
		attempt(what, d.substr(0, n));
		check_refusals(what);
		for (int i = 0; i < OPS; ++i) check((i + what) % OPS);
		vp_cover("end");
		break;
	}
	case 6: {
		perform(WRITE + vp_choice("operation", 5), (char) vp_byte("byte"));
		for (int i = 0; i < OPS; ++i) check(i);
		vp_cover("end");
		break;
	}
	case 7: {
		int n = vp_tier() ? 4 : 3;
		int ops[4];
		for (int i = 0; i < n; ++i) ops[i] = vp_choice("operation", OPS);
		for (int i = 0; i + 1 < n; ++i) perform(ops[i], i ? '\xc2' : (char) vp_char("byte", "a\n{<^,%\xc2\x8a\xff", 10));
		check(ops[n - 1]);
		check(ops[0]);
		vp_cover("end");
		break;
	}
	case 8: {
		int what = vp_choice("format", 5), op = vp_choice("operation", OPS);
		char c = (char) vp_byte("byte");
		std::string doc = what == EBU ? ebu_reference() : reference[what];
		std::istringstream s1 (doc);
		std::shared_ptr<Reader> r;
		switch (what) {
		case SRT: r.reset(new SubripReader(doc)); break;
		case VTT: r.reset(new WebVTTReader(doc)); break;
		case ASS: r.reset(new SSAReader(doc)); break;
		case TXT: r.reset(new STLTextReader(s1)); break;
		case EBU: r.reset(new STLBinaryReader(s1)); break;
		}
		std::vector<Subtitle> before = collect<std::vector<Subtitle> >(r->subtitles());
		std::string p = print(r->subtitles());
		std::map<std::string, std::string> m = r->metadata();
		std::string w;
		if (what != TXT) w = written(before);
		perform(op, c);
		vp_assert(vp_str_eq(print(r->subtitles()), p), "the subtitles of a reader are changed by another operation");
		vp_assert(r->metadata() == m, "the metadata of a reader are changed by another operation");
		if (what != TXT) {
			std::string x = written(collect<std::vector<Subtitle> >(r->subtitles())), y = written(before);
			vp_assert(vp_str_eq(w, x), "the same subtitles are written differently the second time");
			vp_assert(vp_str_eq(w, y), "the same subtitles are written differently the third time");
		}
		check(what);
		vp_cover("end");
		break;
	}
	}
}
