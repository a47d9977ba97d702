//@ src colour.cc effect.cc exceptions.cc font_size.cc horizontal_position.cc rational.cc raw_subtitle.cc reader.cc sub_time.cc subtitle.cc util.cc vertical_position.cc
//@ case 0 styles :: 4 runs (5 in the thorough tier), each italic or not, underlined or not, bold or not, on the same line as the one before or a later one [quick=200]
//@ case 1 positions :: proportional, line of lines, line only or none, with each reference or none; line any of 0..99 of any of 1..99 [quick=100]
//@ case 2 times :: hours, minutes and seconds any of 0..99, 0..59; frames any of 0..249, with 5 rates or none [quick=100]
//@ case 3 metadata and text :: 0..3 entries of metadata of 0..3 bytes any, texts of 3 bytes any [quick=100]
//@ case 4 several subtitles :: 4 runs in every order of 3 subtitles, lines 0..1 [quick=100]
//@ case 5 long lists :: 200 subtitles of up to 4 lines, one byte any [quick=60]
//@ cover 0: tags, plain
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ assume subtitles' times all have a frame rate or none has
#include "common.h"
#include "reader.h"
#include "subtitle.h"
#include "util.h"
#include <map>
#include <memory>
using namespace sub;

class Fake : public Reader
{
public:
	Fake (std::vector<RawSubtitle> const& s, std::map<std::string, std::string> const& m) : _meta(m) { _subs = s; }
	std::map<std::string, std::string> metadata () const { return _meta; }
private:
	std::map<std::string, std::string> _meta;
};

static std::string out (std::vector<RawSubtitle> const& s, std::map<std::string, std::string> const& m = std::map<std::string, std::string>())
{
	std::ostringstream o;
	dump(std::shared_ptr<const Reader>(new Fake(s, m)), o);
	return o.str();
}

static void same (std::string const& got, std::string const& want, char const* what)
{
	vp_assert(got.size() == want.size(), what);
	if (got.size() != want.size()) vp_stop();
	vp_assert(vp_mem_eq(got.data(), want.data(), want.size()), what);
	vp_observe_str(got);
}

static RawSubtitle run (std::string const& text, int line, int second = 1)
{
	RawSubtitle r;
	r.text = text;
	r.vertical_position.line = line;
	r.vertical_position.lines = 23;
	r.vertical_position.reference = TOP_OF_SCREEN;
	r.from = Time::from_hmsf(0, 0, second, 0, Rational(25, 1));
	r.to = Time::from_hmsf(0, 0, second, 10, Rational(25, 1));
	return r;
}
static std::string head (int n, int second = 1) { return "Subtitle " + digits(n, n < 10 ? 1 : n < 100 ? 2 : 3) + " at 00:00:" + digits(second, 2) + ":0 @ 25/1 -> 00:00:" + digits(second, 2) + ":10 @ 25/1\n"; }
static std::string place (int line) { return "\t" + digits(line, line < 10 ? 1 : 2) + " lines of 23 from top\t"; }

extern "C" void vp_harness ()
{
	std::vector<RawSubtitle> s;
	switch (vp_case()) {
	case 0: {
		std::string want = head(0);
		int line = 3;
		bool it = false, un = false, any = false;
		for (int i = 0; i < (vp_tier() ? 5 : 4); ++i) {
			int style = vp_choice("style", 4), bold = vp_choice("bold", 2);
			bool next = i && vp_choice("line", 2);
			if (next) { line += i; if (it) want += "</i>"; if (un) want += "</u>"; want += "\n"; it = un = false; }
			if (next || i == 0) want += place(line);
			RawSubtitle r = run(std::string(i + 1, (char) ('a' + i)), line);
			r.italic = style & 2; r.underline = style & 1; r.bold = bold;
			s.push_back(r);
			if (r.italic != it) want += r.italic ? "<i>" : "</i>";
			if (r.underline != un) want += r.underline ? "<u>" : "</u>";
			it = r.italic; un = r.underline;
			any |= it | un;
			want += r.text;
		}
		if (it) want += "</i>";
		if (un) want += "</u>";
		want += "\n";
		same(out(s), want, "the styles or lines are printed wrongly");
		vp_cover(any ? "tags" : "plain");
		break;
	}
	case 1: {
		static char const* const names[4] = {"top", "centre", "bottom", "top of subtitle"};
		int kind = vp_choice("kind", 4), ref = vp_choice("reference", 5), wide = vp_choice("width", 2);
		RawSubtitle r = run("text", 0);
		VerticalPosition& v = r.vertical_position;
		v = VerticalPosition();
		std::string p;
		ll line = vp_range("line", wide ? 10 : 0, wide ? 99 : 9);
		if (kind == 0) {
			int k = vp_choice("proportion", 5);
			static float const ps[5] = {0, 0.25, 0.5, 1, 0.125};
			static char const* const pt[5] = {"0", "0.25", "0.5", "1", "0.125"};
			v.proportional = ps[k];
			p = std::string(pt[k]) + " of screen";
		} else if (kind < 3) {
			v.line = (int) line;
			p = digits(line, wide ? 2 : 1) + " lines";
			if (kind == 1) { ll of = vp_range("lines", 10, 99); v.lines = (int) of; p += " of " + digits(of, 2); }
		}
		if (ref) { v.reference = (VerticalReference) (ref - 1); p += std::string(" from ") + names[ref - 1]; }
		s.push_back(r);
		same(out(s), head(0) + "\t" + p + "\ttext\n", "a vertical position is printed wrongly");
		vp_cover("end");
		break;
	}
	case 2: {
		int which = vp_choice("field", 4), rate = vp_choice("rate", 6), end = vp_choice("end", 2);
		ll v[4] = {1, 2, 3, 4};
		int fw = 1;
		if (which == 0) v[0] = vp_range("hours", 0, 99);
		if (which == 1) v[1] = vp_range("minutes", 0, 59);
		if (which == 2) v[2] = vp_range("seconds", 0, 59);
		if (which == 3) { int w = vp_choice("width", 3); fw = w + 1; v[3] = w == 0 ? vp_range("frames", 0, 9) : w == 1 ? vp_range("frames", 10, 99) : vp_range("frames", 100, 249); }
		static int const num[5] = {24, 25, 30, 1000, 24000}, den[5] = {1, 1, 1, 1, 1001};
		static char const* const rt[5] = {" @ 24/1", " @ 25/1", " @ 30/1", " @ 1000/1", " @ 24000/1001"};
		boost::optional<Rational> r;
		if (rate) r = Rational(num[rate - 1], den[rate - 1]);
		Time t = Time::from_hmsf((int) v[0], (int) v[1], (int) v[2], (int) v[3], r), o = Time::from_hmsf(0, 0, 5, 6, r);
		std::string tt = digits(v[0], 2) + ":" + digits(v[1], 2) + ":" + digits(v[2], 2) + ":" + digits(v[3], fw) + (rate ? rt[rate - 1] : ""), ot = std::string("00:00:05:6") + (rate ? rt[rate - 1] : "");
		RawSubtitle x = run("text", 7);
		x.from = end ? o : t;
		x.to = end ? t : o;
		s.push_back(x);
		same(out(s), "Subtitle 0 at " + (end ? ot : tt) + " -> " + (end ? tt : ot) + "\n" + place(7) + "text\n", "a time is printed wrongly");
		vp_cover("end");
		break;
	}
	case 3: {
		int n = vp_choice("entries", 4), subs = vp_choice("runs", 3);
		std::map<std::string, std::string> m;
		std::string want;
		static char const* const keys[3] = {"Alpha", "Beta", "Gamma key"};
		for (int i = 0; i < n; ++i) {
			std::string v;
			int len = i == n - 1 ? vp_choice("length of the last value", 4) : 2;
			for (int j = 0; j < len; ++j) v += (char) vp_byte("byte");
			m[keys[i]] = v;
			want += std::string(keys[i]) + ": " + v + "\n";
		}
		for (int i = 0; i < subs; ++i) {
			std::string t;
			for (int j = 0; j < 3; ++j) t += (char) vp_byte("byte");
			s.push_back(run(t, 4 + i));
			if (i == 0) want += head(0);
			want += place(4 + i) + t + "\n";
		}
		same(out(s, m), want, "metadata or text is printed wrongly");
		vp_cover("end");
		break;
	}
	case 4: {
		// runs in any order: out come the subtitles by time, each with its runs in order, a line for each change of line
		std::string cell[3];
		int last[3] = {-1, -1, -1};
		for (int i = 0; i < 4; ++i) {
			int k = vp_choice("subtitle", 3), l = vp_choice("line", 2);
			std::string t (1, (char) ('a' + i));
			s.push_back(run(t, 2 + l, 1 + k));
			if (last[k] != l) cell[k] += (last[k] >= 0 ? "\n" : "") + place(2 + l);
			last[k] = l;
			cell[k] += t;
		}
		std::string want;
		int n = 0;
		for (int k = 0; k < 3; ++k) if (last[k] >= 0) want += head(n++, 1 + k) + cell[k] + "\n";
		same(out(s), want, "subtitles are printed in the wrong order or lost");
		vp_cover("end");
		break;
	}
	case 5: {
		std::string want;
		for (int i = 0; i < 200; ++i) {
			std::string w = "Subtitle " + digits(i, i < 10 ? 1 : i < 100 ? 2 : 3) + " at 00:" + digits(i / 60, 2) + ":" + digits(i % 60, 2) + ":0 @ 25/1 -> 00:" + digits(i / 60, 2) + ":" + digits(i % 60, 2) + ":10 @ 25/1\n";
			for (int j = 0; j < 1 + i % 4; ++j) {
				std::string t (1 + (i * 13 + j * 7) % 400, (char) ('a' + (i + j) % 26));
				if (i == 77 && j == 0) t[0] = (char) vp_byte("byte");
				RawSubtitle r = run(t, j);
				r.from = Time::from_hmsf(0, i / 60, i % 60, 0, Rational(25, 1));
				r.to = Time::from_hmsf(0, i / 60, i % 60, 10, Rational(25, 1));
				r.italic = (i + j) % 3 == 0;
				w += place(j) + (r.italic ? "<i>" : "") + t + (r.italic ? "</i>" : "") + "\n";
				s.push_back(r);
			}
			want += w;
		}
		same(out(s), want, "a long list is printed wrongly");
		vp_cover("end");
		break;
	}
	}
}
