//@ src colour.cc effect.cc exceptions.cc font_size.cc horizontal_position.cc iso6937.cc iso6937_tables.cc rational.cc raw_subtitle.cc reader.cc stl_binary_tables.cc stl_binary_writer.cc stl_util.cc sub_time.cc subtitle.cc util.cc vertical_position.cc
//@ case 0 strings of the header :: each of the 12 strings in turn of 0..34 bytes (0..8 for dates and country), every byte any [quick=150]
//@ case 1 times in milliseconds :: milliseconds any of 0..999 at each of the 4 frame rates, with the other fields low and high; seconds, minutes and hours (0..23) any [quick=150]
//@ case 2 times in frames :: frames any of 0..rate-1 of times with 6 rates, written at each of the 4 frame rates [quick=100]
//@ case 3 lengths of text :: 1..345, 900, 1100, 2300 and 8000 encoded bytes, plain, styled and with accents, on one or two rows, between two other subtitles [quick=200]
//@ case 4 vertical positions :: proportion any of 0/250..250/250 or line any of 0..23 of 23, 32 or no number of lines, from each reference, 1..3 lines, given from the top, from the bottom or with the top one in the middle [quick=150]
//@ case 5 counts :: 0..13, 99, 100, 150 and 400 subtitles of 1..3 lines; revision number any of 0..99 [quick=150]
//@ case 6 longest row :: 1..130 characters of one or two bytes in 1..3 blocks, on the first or second row [quick=100]
//@ case 7 languages and frame rates :: all the languages, every rate within 1/20000 of a supported one [quick=60]
//@ cover 0: written, refused
//@ cover 1: carried, not carried
//@ cover 2: end
//@ cover 3: one block, more
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ assume frame rates of 23.976, 24, 25 and 30; subtitles with at least one line; texts without NUL
#include "stl.h"
#include "stl_binary_writer.h"
#include "subtitle.h"
#include "exceptions.h"
using namespace sub;

struct Args {
	float fps;
	Language language;
	std::string s[12];
	int revision;
	Args () : fps(25), language(LANGUAGE_ENGLISH), revision(1) {
		static char const* d[12] = {"Original", "", "Translated", "Episode", "Name", "Contact", "140212", "140213", "GBR", "Publisher", "Editor", "Details"};
		for (int i = 0; i < 12; ++i) s[i] = d[i];
	}
};
// offsets and lengths of the strings above in the header
static int const at[12] = {16, 48, 80, 112, 144, 176, 224, 230, 274, 277, 309, 341}, len[12] = {32, 32, 32, 32, 32, 32, 6, 6, 3, 32, 32, 32};

static bool write (std::vector<Subtitle> const& subs, Args const& a, std::string& out)
{
	try {
		write_stl_binary(subs, a.fps, a.language, a.s[0], a.s[1], a.s[2], a.s[3], a.s[4], a.s[5], a.s[6], a.s[7], a.revision, a.s[8], a.s[9], a.s[10], a.s[11], "vp_out.stl");
	} catch (std::exception&) {
		return false;
	}
	long n = vp_vfs_size("vp_out.stl");
	vp_assert(n >= 1024, "the file is shorter than its header");
	if (n < 1024) vp_stop();
	out.assign((char const*) vp_vfs_data("vp_out.stl"), n);
	return true;
}

static int field (std::string const& f, int a, std::string const& w) { return vp_mem_eq(f.data() + a, w.data(), w.size()); }

// the header, and the layout of the blocks
static void check (std::string const& f, Args const& a, int subtitles, ll longest = -1)
{
	All strings, codes;
	for (int i = 0; i < 12; ++i) {
		std::string w = a.s[i];
		w.resize(len[i], ' ');
		strings.add(field(f, at[i], w));
	}
	vp_assert(strings.v, "a string of the header is not in its place");
	codes.add(field(f, 0, "850"));
	codes.add(field(f, 3, a.fps < 23.99 ? "STL23.01" : a.fps < 24.5 ? "STL24.01" : a.fps < 25.5 ? "STL25.01" : "STL30.01"));
	codes.add(field(f, 12, "00"));
	codes.add(field(f, 14, STLBinaryTables().language_enum_to_file(a.language)));
	codes.add(field(f, 236, digits(a.revision, 2)));
	vp_assert(codes.v, "a code of the header is wrong");
	vp_assert((f.size() - 1024) % 128 == 0, "the file is not a whole number of blocks");
	int n = (int) (f.size() - 1024) / 128;
	vp_assert(field(f, 238, digits(n, 5)), "the count of blocks is wrong");
	vp_assert(field(f, 243, digits(subtitles, 5)), "the count of subtitles is wrong");
	if (longest >= 0) vp_assert(field(f, 251, digits(longest > 99 ? 99 : longest, 2)), "the longest row is wrong");
	vp_assert(field(f, 253, "23"), "the number of rows is wrong");
	for (int i = 0; i < n; ++i) vp_observe_bytes(f.data() + 1024 + i * 128, 128);
}

struct Tblock { int ebn, from[4], to[4], vp, jc, cf, cs; std::string text; };
static std::vector<Tblock> blocks (std::string const& f)
{
	std::vector<Tblock> r;
	for (size_t i = 1024; i + 128 <= f.size(); i += 128) {
		unsigned char const* b = (unsigned char const*) f.data() + i;
		Tblock t;
		t.ebn = b[3]; t.cs = b[4];
		for (int j = 0; j < 4; ++j) { t.from[j] = b[5 + j]; t.to[j] = b[9 + j]; }
		t.vp = b[13]; t.jc = b[14]; t.cf = b[15];
		t.text.assign((char const*) b + 16, 112);
		r.push_back(t);
	}
	return r;
}

static Line line (std::string const& text, float prop)
{
	Line l;
	l.vertical_position.proportional = prop;
	l.vertical_position.reference = TOP_OF_SCREEN;
	Block b;
	b.text = text;
	l.blocks.push_back(b);
	return l;
}
static Subtitle subtitle (std::string const& text, int i = 0)
{
	Subtitle s;
	s.from = Time::from_hms(0, i / 60, i % 60, 0);
	s.to = Time::from_hms(0, i / 60, i % 60, 400);
	s.lines.push_back(line(text, 10 / 23.0f));
	return s;
}

// is (h, m, s, f) the time of `ms_num / ms_den` seconds after `base` seconds, to the nearest frame
static int time_is (int const* t, ll base, ll num, ll den, float fps)
{
	ll per = fps < 24 ? 24 : (ll) fps;
	ll rn = fps < 24 ? 23976 : (ll) fps * 1000;
	// twice the error of the frame count, in units of 1/(1000 den) frames
	ll total = (ll) t[0] * 3600 + t[1] * 60 + t[2];
	ll carry = total - base;
	ll frames = t[3];
	ll e = 2 * (num * rn - frames * 1000 * den);
	int near = (e <= 1000 * den) & (-e <= 1000 * den);
	// a rounding up to the next second
	ll e1 = 2 * (num * rn - per * 1000 * den);
	int up = (frames == 0) & (e1 <= 1000 * den) & (-e1 <= 1000 * den);
	int ok = (t[1] < 60) & (t[2] < 60) & (frames < per);
	return ok & (int) vp_ite(carry == 0, near, vp_ite(carry == 1, up, 0));
}

extern "C" void vp_harness ()
{
	Args a;
	std::string f;
	std::vector<Subtitle> subs;
	switch (vp_case()) {
	case 0: {
		int i = vp_choice("string", 12), n = vp_choice("length", len[i] == 32 ? 35 : 9);
		a.s[i].assign(n, ' ');
		for (int j = 0; j < n; ++j) a.s[i][j] = (char) vp_byte("byte");
		subs.push_back(subtitle("text"));
		bool ok = write(subs, a, f);
		vp_assert(ok == (len[i] == 32 ? n <= 32 : n == len[i]), ok ? "a string of the wrong length is accepted" : "a string is refused");
		if (ok) check(f, a, 1, 4);
		vp_cover(ok ? "written" : "refused");
		break;
	}
	case 1: {
		static float const fps[4] = {23.976f, 24, 25, 30};
		a.fps = fps[vp_choice("rate", 4)];
		int which = vp_choice("field", 8), other = vp_choice("others", 3);
		int h = other == 0 ? 0 : other == 1 ? 23 : 9, m = other == 0 ? 0 : 59, s = other == 0 ? 0 : 59, ms = other == 0 ? 0 : other == 1 ? 999 : 500;
		if (which < 4) ms = (int) vp_range("milliseconds", which * 250, which * 250 + 249);
		else if (which == 4) s = (int) vp_range("seconds", 0, 59);
		else if (which == 5) m = (int) vp_range("minutes", 0, 59);
		else if (which == 6) h = (int) vp_range("hours", 0, 22);
		else { s = (int) vp_range("seconds", 0, 59); ms = 999; }
		Subtitle x = subtitle("text");
		int end = vp_choice("end", 2);
		(end ? x.to : x.from) = Time::from_hms(h, m, s, ms);
		subs.push_back(x);
		vp_assert(write(subs, a, f), "a subtitle is refused");
		check(f, a, 1, 4);
		std::vector<Tblock> b = blocks(f);
		vp_assert(b.size() == 1, "the number of blocks is wrong");
		if (b.size() != 1) vp_stop();
		int const* t = end ? b[0].to : b[0].from;
		ll base = (ll) h * 3600 + m * 60 + s;
		vp_assert(time_is(t, base, ms, 1000, a.fps), "a time is wrong");
		vp_assert(end ? time_is(b[0].from, 0, 0, 1000, a.fps) : time_is(b[0].to, 0, 400, 1000, a.fps), "the other time is wrong");
		if (vp_concretize((ll) t[0] * 3600 + t[1] * 60 + t[2] != base)) vp_cover("carried"); else vp_cover("not carried");
		break;
	}
	case 2: {
		static float const fps[4] = {23.976f, 24, 25, 30};
		static int const num[6] = {24, 25, 30, 50, 24000, 1000}, den[6] = {1, 1, 1, 1, 1001, 1};
		a.fps = fps[vp_choice("rate", 4)];
		int r = vp_choice("rate of the time", 6);
		int fr = (int) vp_range("frames", 0, r == 4 ? 23 : r == 5 ? 249 : num[r] - 1);
		int h = 1, m = 59, s = vp_choice("seconds", 2) ? 59 : 3;
		Subtitle x = subtitle("text");
		x.from = Time::from_hmsf(h, m, s, fr, Rational(num[r], den[r]));
		x.to = Time::from_hmsf(h, m, s, fr, Rational(num[r], den[r]));
		subs.push_back(x);
		vp_assert(write(subs, a, f), "a subtitle is refused");
		check(f, a, 1, 4);
		std::vector<Tblock> b = blocks(f);
		vp_assert(b.size() == 1, "the number of blocks is wrong");
		if (b.size() != 1) vp_stop();
		vp_assert(time_is(b[0].from, h * 3600 + m * 60 + s, (ll) fr * den[r], num[r], a.fps), "the in time is wrong");
		vp_assert(time_is(b[0].to, h * 3600 + m * 60 + s, (ll) fr * den[r], num[r], a.fps), "the out time is wrong");
		vp_cover("end");
		break;
	}
	case 3: {
		static int const lengths[] = {1, 2, 50, 108, 109, 110, 111, 112, 113, 114, 115, 116, 221, 222, 223, 224, 225, 226, 334, 335, 336, 337, 338, 345, 900, 1100, 2300, 8000};
		int n = lengths[vp_choice("length", sizeof(lengths) / sizeof(lengths[0]))], kind = vp_choice("kind", 4), rows = vp_choice("rows", 2);
		std::string text, enc;
		bool it = kind == 1;
		// `enc` is the length of the encoding
		int k = n - (it ? 2 : 0);
		if (kind == 3) { k = n - n % 2; }
		if (k <= 0) vp_stop();
		for (int i = 0; i < k; ++i) {
			if (kind == 3) { text += "\xc3\xa9"; ++i; }
			else text += (char) ('a' + i % 26);
		}
		if (kind == 2) text[k / 2] = (char) vp_char("byte", "AZaz09 -", 8);
		Subtitle x = subtitle(text, 1);
		x.lines[0].blocks[0].italic = it;
		int total = (it ? 2 : 0) + k;
		if (rows) { x.lines.push_back(line("end", 12 / 23.0f)); total += 5; }
		x.lines[0].horizontal_position.reference = vp_choice("right", 2) ? RIGHT_OF_SCREEN : LEFT_OF_SCREEN;
		subs.push_back(subtitle("before", 0));
		subs.push_back(x);
		subs.push_back(subtitle("after", 2));
		vp_assert(write(subs, a, f), "a subtitle is refused");
		check(f, a, 3, kind == 3 ? std::max(6, k / 2) : std::max(6, k));
		std::vector<Tblock> b = blocks(f);
		int need = total / 112 + 1;
		vp_assert((int) b.size() == need + 2, "the number of blocks is wrong");
		if ((int) b.size() != need + 2) vp_stop();
		std::string all;
		for (int i = 0; i < need; ++i) {
			Tblock const& t = b[1 + i];
			vp_assert(t.ebn == (i == need - 1 ? 0xff : i), "an extension block number is wrong");
			vp_assert(t.from[2] == 1 && t.to[2] == 1 && t.to[3] == 10 && t.vp == 10 && t.cf == 0 && t.cs == 0, "a field of a block is wrong");
			vp_assert(t.jc == (x.lines[0].horizontal_position.reference == RIGHT_OF_SCREEN ? 3 : 1), "the justification is wrong");
			all += t.text;
		}
		vp_assert(b[0].ebn == 0xff && b[need + 1].ebn == 0xff && b[0].jc == 2 && b[need + 1].jc == 2 && b[need + 1].from[2] == 2, "a field of another block is wrong");
		int fill = 1;
		for (size_t i = 0; i < all.size(); ++i) fill &= (int) i < total ? (unsigned char) all[i] != 0x8f : (unsigned char) all[i] == 0x8f;
		vp_assert(fill, "the text is not ended by filler");
		vp_cover(need == 1 ? "one block" : "more");
		break;
	}
	case 4: {
		int kind = vp_choice("kind", 4), ref = vp_choice("reference", kind ? 4 : 3), n = 1 + vp_choice("lines", 3);
		static VerticalReference const refs[4] = {TOP_OF_SCREEN, VERTICAL_CENTRE_OF_SCREEN, BOTTOM_OF_SCREEN, TOP_OF_SUBTITLE};
		Subtitle x;
		x.from = Time::from_hms(0, 0, 1, 0);
		x.to = Time::from_hms(0, 0, 2, 0);
		ll v = kind == 0 ? vp_range("proportion", 0, 250) : vp_range("line", 0, 23);
		double top = 0;
		for (int i = 0; i < n; ++i) {
			Line l = line("text", 0);
			ll w = ref == 2 ? v - i * (kind == 0 ? 25 : 2) : v + i * (kind == 0 ? 25 : 2);
			if (kind == 0) {
				l.vertical_position.proportional = w / 250.0f;
			} else {
				l.vertical_position.proportional = boost::optional<float>();
				l.vertical_position.line = (int) w;
				if (kind == 1) l.vertical_position.lines = 23;
				if (kind == 2) l.vertical_position.lines = 32;
			}
			l.vertical_position.reference = refs[ref];
			x.lines.push_back(l);
		}
		// given in an order other than from the top
		if (n > 1) {
			int order = vp_choice("order", n);
			if (order == 1) std::swap(x.lines[0], x.lines[n - 1]);
			if (order == 2) std::swap(x.lines[0], x.lines[1]);
		}
		double d = kind == 0 ? v / 250.0 : kind == 2 ? v / 32.0 : v / 23.0;
		top = ref == 3 ? v : (ref == 0 ? d : ref == 1 ? d + 0.5 : 1 - d) * 23;
		subs.push_back(x);
		vp_assert(write(subs, a, f), "a subtitle is refused");
		check(f, a, 1, 4);
		std::vector<Tblock> b = blocks(f);
		vp_assert(b.size() == 1, "the number of blocks is wrong");
		if (b.size() != 1) vp_stop();
		double e = b[0].vp - top;
		if (ref == 3 || (kind == 1 && ref != 1)) vp_assert((e < 1e-3) & (e > -1e-3), "the vertical position is not the line");
		else vp_assert((e < 0.502) & (e > -0.502), "the vertical position is not the nearest row");
		vp_cover("end");
		break;
	}
	case 5: {
		static int const counts[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 99, 100, 150, 400};
		int n = counts[vp_choice("subtitles", sizeof(counts) / sizeof(counts[0]))], lines = 1 + vp_choice("lines", 3);
		a.revision = (int) vp_range("revision", 0, 99);
		for (int i = 0; i < n; ++i) {
			Subtitle s = subtitle("text", i);
			for (int j = 1; j < lines; ++j) s.lines.push_back(line("more", (10 + j) / 23.0f));
			subs.push_back(s);
		}
		vp_assert(write(subs, a, f), "a list of subtitles is refused");
		check(f, a, n, n ? 4 : 0);
		vp_assert((int) f.size() == 1024 + 128 * n, "the number of blocks is wrong");
		std::vector<Tblock> b = blocks(f);
		for (int i = 0; i < n && i < (int) b.size(); ++i) vp_assert(b[i].ebn == 0xff && b[i].from[1] == i / 60 && b[i].from[2] == i % 60 && b[i].vp == 10, "a block is wrong");
		vp_cover("end");
		break;
	}
	case 6: {
		static int const ns[] = {1, 2, 9, 10, 11, 49, 50, 51, 66, 98, 99, 100, 101, 130};
		int n = ns[vp_choice("length", sizeof(ns) / sizeof(ns[0]))], wide = vp_choice("two bytes", 3), split = 1 + vp_choice("blocks", 3), second = vp_choice("row", 2);
		Line l = line("", 10 / 23.0f);
		l.blocks.clear();
		int used = 0;
		for (int i = 0; i < split; ++i) {
			int k = i == split - 1 ? n - used : n / split;
			used += k;
			Block b;
			for (int j = 0; j < k; ++j) b.text += wide == 1 || (wide == 2 && (i + j) % 2) ? "\xc3\xa9" : "e";
			b.italic = i == 1;
			l.blocks.push_back(b);
		}
		Subtitle s = subtitle("x");
		if (second) { s.lines.push_back(l); s.lines[1].vertical_position.proportional = 11 / 23.0f; }
		else { s.lines[0] = l; }
		subs.push_back(s);
		subs.push_back(subtitle("y", 1));
		vp_assert(write(subs, a, f), "a subtitle is refused");
		check(f, a, 2, n);
		vp_cover("end");
		break;
	}
	case 7: {
		static float const fps[4] = {23.976f, 24, 25, 30};
		a.language = (Language) vp_choice("language", LANGUAGE_ZULU + 1);
		a.fps = fps[vp_choice("rate", 4)] + (vp_choice("error", 3) - 1) / 20000.0f;
		subs.push_back(subtitle("text"));
		vp_assert(write(subs, a, f), "a language or frame rate is refused");
		check(f, a, 1, 4);
		vp_cover("end");
		break;
	}
	}
}
