//@ src colour.cc effect.cc exceptions.cc font_size.cc horizontal_position.cc iso6937.cc iso6937_tables.cc rational.cc raw_subtitle.cc reader.cc stl_binary_reader.cc stl_binary_tables.cc stl_binary_writer.cc stl_util.cc sub_time.cc subtitle.cc util.cc vertical_position.cc
//@ case 0 characters :: every character of ISO 6937 followed by one of 12 others (60 in the thorough tier), on two rows [quick=150]
//@ case 1 styles :: 5 blocks (6 in the thorough tier), each italic or not, underlined or not and on the same row as the one before or the next, the 2nd with an empty block before it, the 3rd or 4th with one of spaces, or none [quick=200]
//@ case 2 rows :: 1..3 lines, first row any of 0..22 given as a proportion or a line of 23 from each reference, 1..8 rows between lines [quick=150]
//@ case 3 times :: in and out times with frames any of 0..rate-1 or milliseconds any of 0..999 at each frame rate, out after, at or before in [quick=100]
//@ case 4 several subtitles :: 3 subtitles of 1..2 lines with each justification (also in the cases of rows), italic or underlined at the end or not [quick=150]
//@ case 5 lengths :: one row of 1..111 bytes, two rows of up to 109 together, accents or not [quick=100]
//@ case 6 header :: titles and details of 0..32 bytes, every byte any; all languages and frame rates [quick=100]
//@ case 7 lines from the top of the subtitle :: 1..4 lines numbered from a first of 0..3 [quick=60]
//@ case 8 long lists :: 300 subtitles, one byte any [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ cover 6: end
//@ cover 7: end
//@ cover 8: end
//@ assume subtitles at distinct times, in order; lines in order at distinct rows of 0..22; texts of rows not empty, of ISO 6937 characters, whose encoding fits one block
#include "stl.h"
#include "stl_binary_reader.h"
#include "stl_binary_writer.h"
#include "collect.h"
#include "exceptions.h"
#include "iso6937_oracle.h"
using namespace sub;

struct Args {
	float fps;
	Language language;
	std::string s[12];
	Args () : fps(25), language(LANGUAGE_ENGLISH) {
		static char const* d[12] = {"Original", "", "Translated", "Episode", "Name", "Contact", "140212", "140213", "GBR", "Publisher", "Editor", "Details"};
		for (int i = 0; i < 12; ++i) s[i] = d[i];
	}
};

static std::string utf8 (wchar_t w)
{
	std::string o;
	if (w < 0x80) o += (char) w;
	else if (w < 0x800) { o += (char) (0xc0 | (w >> 6)); o += (char) (0x80 | (w & 0x3f)); }
	else { o += (char) (0xe0 | (w >> 12)); o += (char) (0x80 | ((w >> 6) & 0x3f)); o += (char) (0x80 | (w & 0x3f)); }
	return o;
}

// row of the 23-row grid
static double row (Line const& l)
{
	VerticalPosition const& v = l.vertical_position;
	if (v.proportional) return v.proportional.get() * 23;
	if (v.line && v.lines) return v.line.get() * 23.0 / v.lines.get();
	return -1000;
}

// `rows`: the row that each line must have
static void round_trip (std::vector<Subtitle> const& subs, Args const& a, std::vector<ll> const& rows, int fps)
{
	bool ok = true;
	try {
		write_stl_binary(subs, a.fps, a.language, a.s[0], a.s[1], a.s[2], a.s[3], a.s[4], a.s[5], a.s[6], a.s[7], 1, a.s[8], a.s[9], a.s[10], a.s[11], "vp_out.stl");
	} catch (std::exception&) {
		ok = false;
	}
	vp_assert(ok, "subtitles are refused");
	if (!ok) vp_stop();
	long n = vp_vfs_size("vp_out.stl");
	vp_assert(n >= 0, "no file is written");
	if (n < 0) vp_stop();
	std::istringstream s (std::string((char const*) vp_vfs_data("vp_out.stl"), n));
	std::vector<Subtitle> got;
	All head;
	try {
		STLBinaryReader r (s);
		got = collect<std::vector<Subtitle> >(r.subtitles());
		std::string g[12] = {r.original_programme_title, r.original_episode_title, r.translated_programme_title, r.translated_episode_title, r.translator_name, r.translator_contact_details, r.creation_date, r.revision_date, r.country_of_origin, r.publisher, r.editor_name, r.editor_contact_details};
		for (int i = 0; i < 12; ++i) {
			std::string w = a.s[i];
			w.resize(i == 6 || i == 7 ? 6 : i == 8 ? 3 : 32, ' ');
			// trailing spaces do not matter
			if (g[i].size() < w.size()) g[i].resize(w.size(), ' ');
			head.add(vp_str_eq(g[i], w));
		}
		head.add(r.language == a.language);
		head.add(r.frame_rate == fps);
		head.add(r.number_of_subtitles == (int) subs.size());
	} catch (std::exception&) {
		ok = false;
	}
	vp_assert(ok, "a written file is refused");
	if (!ok) vp_stop();
	vp_assert(head.v, "a string or code of the header is changed");
	vp_assert(got.size() == subs.size(), "the number of subtitles is changed");
	if (got.size() != subs.size()) vp_stop();
	All text, style, just, place, time;
	size_t k = 0;
	for (size_t i = 0; i < got.size(); ++i) {
		Subtitle const& g = got[i];
		Subtitle const& w = subs[i];
		vp_assert(g.lines.size() == w.lines.size(), "the number of lines of a subtitle is changed");
		if (g.lines.size() != w.lines.size()) vp_stop();
		// within half a frame
		double d = g.from.all_as_seconds() - w.from.all_as_seconds(), e = g.to.all_as_seconds() - w.to.all_as_seconds(), lim = 0.5 / a.fps + 2e-3;
		time.add((d < lim) & (d > -lim) & (e < lim) & (e > -lim));
		for (size_t j = 0; j < g.lines.size(); ++j) {
			Line const& gl = g.lines[j];
			Line const& wl = w.lines[j];
			double dr = row(gl) - rows[k++];
			place.add((dr < 1e-3) & (dr > -1e-3));
			just.add(gl.horizontal_position.reference == w.lines[0].horizontal_position.reference);
			// per character
			std::string gt, gs, wt, ws;
			for (size_t b = 0; b < gl.blocks.size(); ++b) { gt += gl.blocks[b].text; gs += std::string(gl.blocks[b].text.size(), (char) (gl.blocks[b].italic * 2 + gl.blocks[b].underline)); }
			for (size_t b = 0; b < wl.blocks.size(); ++b) { wt += wl.blocks[b].text; ws += std::string(wl.blocks[b].text.size(), (char) (wl.blocks[b].italic * 2 + wl.blocks[b].underline)); }
			text.add(vp_str_eq(gt, wt));
			style.add(vp_str_eq(gs, ws));
			vp_observe_str(gt);
			vp_observe_str(gs);
		}
		vp_observe(g.from.milliseconds()); vp_observe(g.to.milliseconds());
	}
	vp_assert(text.v, "the text is changed");
	vp_assert(style.v, "italic or underline is changed");
	vp_assert(place.v, "the vertical position is changed");
	vp_assert(just.v, "the justification is changed");
	vp_assert(time.v, "a time is changed");
}

static Block block (std::string const& text, bool italic = false, bool underline = false)
{
	Block b;
	b.text = text;
	b.italic = italic;
	b.underline = underline;
	return b;
}
static Line line (std::string const& text, int r)
{
	Line l;
	l.vertical_position.proportional = r / 23.0f;
	l.vertical_position.reference = TOP_OF_SCREEN;
	if (!text.empty()) l.blocks.push_back(block(text));
	return l;
}
static Subtitle subtitle (int i = 0)
{
	Subtitle s;
	s.from = Time::from_hms(0, i / 60, i % 60, 0);
	s.to = Time::from_hms(0, i / 60, i % 60, 400);
	return s;
}
static int const exact_fps[4] = {23, 24, 25, 30};
static float const all_fps[4] = {23.976f, 24, 25, 30};

extern "C" void vp_harness ()
{
	Args a;
	std::vector<Subtitle> subs;
	std::vector<ll> rows;
	switch (vp_case()) {
	case 0: {
		static wchar_t all[512];
		int n = 0;
		for (int i = 1; i < 256; ++i) if (iso_oracle::single[i] && i != '\n') all[n++] = iso_oracle::single[i];
		for (int i = 0; i < iso_oracle::npairs; ++i) all[n++] = iso_oracle::pairs[i].w;
		int k = vp_choice("character", n), step = vp_choice("other", vp_tier() ? 60 : 12) * 23 + 1;
		Subtitle s = subtitle();
		s.lines.push_back(line(utf8(all[k]) + utf8(all[(k + step) % n]), 10));
		s.lines.push_back(line(utf8(all[(k + step) % n]) + "x" + utf8(all[k]), 12));
		subs.push_back(s);
		rows.push_back(10); rows.push_back(12);
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	case 1: {
		Subtitle s = subtitle();
		int r = 5, none = vp_choice("empty block", 4);
		for (int i = 0; i < (vp_tier() ? 6 : 5); ++i) {
			int style = vp_choice("style", 4);
			if (i == 0 || vp_choice("new line", 2)) { r += 1 + i % 2; s.lines.push_back(line("", r)); rows.push_back(r); }
			// a block without text changes nothing, and spaces are kept
			if (none == i + 1 && s.lines.back().blocks.size() > 0) s.lines.back().blocks.push_back(block(none == 2 ? " " : none == 3 ? "   " : "", !(style & 2), style & 1));
			s.lines.back().blocks.push_back(block(std::string(i + 1, (char) ('a' + i)), style & 2, style & 1));
		}
		subs.push_back(s);
		Subtitle t = subtitle(1);
		t.lines.push_back(line("next", 7));
		rows.push_back(7);
		subs.push_back(t);
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	case 2: {
		int kind = vp_choice("kind", 2), ref = vp_choice("reference", 3), n = 1 + vp_choice("lines", 3), gap = 1 + vp_choice("gap", 8);
		int first = (int) vp_range("row", 0, 22);
		vp_assume(first + (n - 1) * gap <= 22);
		static VerticalReference const refs[3] = {TOP_OF_SCREEN, VERTICAL_CENTRE_OF_SCREEN, BOTTOM_OF_SCREEN};
		if (kind == 1 && ref == 1) vp_stop();
		Subtitle s = subtitle();
		for (int i = 0; i < n; ++i) {
			Line l = line(std::string("t") + (char) ('a' + i), 0);
			int r = first + i * gap;
			l.horizontal_position.reference = gap % 3 == 0 ? RIGHT_OF_SCREEN : gap % 3 == 1 ? LEFT_OF_SCREEN : HORIZONTAL_CENTRE_OF_SCREEN;
			VerticalPosition& v = l.vertical_position;
			v.reference = refs[ref];
			if (kind == 0) v.proportional = ref == 0 ? r / 23.0f : ref == 1 ? r / 23.0f - 0.5f : 1 - r / 23.0f;
			else { v.proportional = boost::optional<float>(); v.line = ref == 0 ? r : 23 - r; v.lines = 23; }
			s.lines.push_back(l);
			rows.push_back(r);
		}
		subs.push_back(s);
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	case 3: {
		int r = vp_choice("rate", 4), ms = vp_choice("milliseconds", 5), out = vp_choice("out", 3);
		a.fps = all_fps[r];
		Subtitle s = subtitle();
		if (ms) {
			int v = (int) vp_range("value", ms * 250 - 250, ms * 250 - 1);
			s.from = Time::from_hms(1, 2, 3, v);
			s.to = Time::from_hms(2, 3, 4, 999 - v);
		} else {
			static int const num[4] = {24000, 24, 25, 30}, den[4] = {1001, 1, 1, 1};
			int v = (int) vp_range("frames", 0, r == 0 ? 23 : num[r] - 1);
			s.from = Time::from_hmsf(0, 59, 58, v, Rational(num[r], den[r]));
			s.to = Time::from_hmsf(22, 59, 59, (r == 0 ? 23 : num[r] - 1) - v, Rational(num[r], den[r]));
		}
		if (out == 1) s.to = s.from;
		if (out == 2) std::swap(s.from, s.to);
		s.lines.push_back(line("text", 3));
		rows.push_back(3);
		subs.push_back(s);
		round_trip(subs, a, rows, exact_fps[r]);
		vp_cover("end");
		break;
	}
	case 4: {
		static HorizontalReference const refs[3] = {LEFT_OF_SCREEN, HORIZONTAL_CENTRE_OF_SCREEN, RIGHT_OF_SCREEN};
		for (int i = 0; i < 3; ++i) {
			Subtitle s = subtitle(i);
			int style = vp_choice("style", 3), n = 1 + vp_choice("lines", 2);
			HorizontalReference h = refs[i == 0 ? vp_choice("justification", 3) : (style + i + n) % 3];
			for (int j = 0; j < n; ++j) {
				Line l = line(std::string("t") + (char) ('a' + i * 2 + j), 6 + i * 3 + j);
				l.horizontal_position.reference = h;
				l.blocks.push_back(block("end", style == 1, style == 2));
				s.lines.push_back(l);
				rows.push_back(6 + i * 3 + j);
			}
			subs.push_back(s);
		}
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	case 5: {
		int n = 1 + vp_choice("length", 111), kind = vp_choice("kind", 4);
		Subtitle s = subtitle();
		std::string t;
		for (int i = 0; i < n; ++i) {
			if (kind == 1 && i + 1 < n) { t += "\xc3\xa9"; ++i; }
			else t += (char) ('a' + i % 26);
		}
		s.lines.push_back(line(t, 9));
		rows.push_back(9);
		if (kind == 2) s.lines[0].blocks[0].italic = true;
		if (kind >= 2) {
			if (n + (kind == 2 ? 2 : 0) + 4 > 111) vp_stop();
			s.lines.push_back(line("two", 10));
			if (kind == 2) s.lines[1].blocks[0].italic = true;
			rows.push_back(10);
		}
		subs.push_back(s);
		Subtitle u = subtitle(1);
		u.lines.push_back(line("next", 11));
		rows.push_back(11);
		subs.push_back(u);
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	case 6: {
		static int const at[9] = {0, 1, 2, 3, 4, 5, 9, 10, 11};
		int kind = vp_choice("kind", 3), r = 2;
		if (kind == 0) {
			int i = at[vp_choice("string", 9)], n = vp_choice("length", 33);
			a.s[i].assign(n, ' ');
			for (int j = 0; j < n; ++j) a.s[i][j] = (char) vp_byte("byte");
		} else if (kind == 1) {
			for (int i = 6; i <= 8; ++i) for (size_t j = 0; j < a.s[i].size(); ++j) a.s[i][j] = (char) vp_byte("byte");
		} else {
			a.language = (Language) vp_choice("language", LANGUAGE_ZULU + 1);
			r = vp_choice("rate", 4);
			a.fps = all_fps[r];
		}
		Subtitle s = subtitle();
		s.lines.push_back(line("text", 3));
		rows.push_back(3);
		subs.push_back(s);
		round_trip(subs, a, rows, exact_fps[r]);
		vp_cover("end");
		break;
	}
	case 7: {
		int n = 1 + vp_choice("lines", 4), first = vp_choice("first", 4), gap = 1 + vp_choice("gap", 3);
		int lines = vp_choice("lines of the screen", 3);
		Subtitle s = subtitle();
		for (int i = 0; i < n; ++i) {
			Line l = line(std::string("t") + (char) ('a' + i), 0);
			l.vertical_position = VerticalPosition();
			l.vertical_position.line = first + i * gap;
			if (lines) l.vertical_position.lines = lines == 1 ? 23 : 32;
			l.vertical_position.reference = TOP_OF_SUBTITLE;
			l.horizontal_position.reference = gap == 1 ? RIGHT_OF_SCREEN : gap == 2 ? LEFT_OF_SCREEN : HORIZONTAL_CENTRE_OF_SCREEN;
			s.lines.push_back(l);
			rows.push_back(first + i * gap);
		}
		subs.push_back(s);
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	case 8: {
		for (int i = 0; i < 300; ++i) {
			Subtitle s = subtitle(i);
			for (int j = 0; j < 1 + i % 3; ++j) {
				Line l = line(std::string(1 + (i * 7 + j * 3) % 30, (char) ('a' + (i + j) % 26)), 2 + i % 15 + j * 2);
				l.blocks[0].italic = i % 4 == 1;
				l.blocks.push_back(block("\xc3\xa9z", false, i % 5 == 2));
				if (i == 150 && j == 0) l.blocks[0].text[0] = (char) vp_char("byte", "ABCDEFGH", 8);
				s.lines.push_back(l);
				rows.push_back(2 + i % 15 + j * 2);
			}
			subs.push_back(s);
		}
		round_trip(subs, a, rows, 25);
		vp_cover("end");
		break;
	}
	}
}
