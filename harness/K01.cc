//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc rational.cc raw_subtitle.cc sub_time.cc subtitle.cc vertical_position.cc
//@ case 0 sorting and grouping by time and line :: 0..4 raw subtitles (5 in thorough), each with its start 0..2, end 3..4 and line 0..1 symbolic [quick=100]
//@ case 1 grouping with fades :: 3 raw subtitles at the same times, each fade absent or 0..1 symbolic [quick=60]
//@ case 2 grouping by any vertical positions :: 3 raw subtitles at the same times, every triple of 9 kinds of position, values 0..1 symbolic [quick=60]
//@ case 3 blocks and lines keep everything :: 2 raw subtitles in the same or another line, every field symbolic [quick=60]
//@ case 4 stability with many :: 20 or 40 raw subtitles of which any two have any start time 0..3 and the rest one of 3 patterns [quick=100]
//@ case 5 times at different rates :: 3 raw subtitles, each at 24, 25 or 1000 frames per second or none, start 1 s plus any frame 0..25 [quick=100]
//@ case 6 containers :: vector, list and deque give the same, 3 raw subtitles with symbolic start and line, one without text or none [quick=60]
//@ cover 0: end
//@ cover 1: same, different
//@ cover 2: same line, other line
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end, throws
//@ cover 6: end
#include "common.h"
#include "collect.h"
#include "exceptions.h"
#include <deque>
using namespace sub;

static VerticalPosition on_line (ll n)
{
	VerticalPosition p;
	p.line = (int) n;
	p.lines = 23;
	p.reference = TOP_OF_SCREEN;
	return p;
}

static RawSubtitle raw (int i)
{
	RawSubtitle r;
	r.text = std::string(1, (char) ('A' + i % 26)) + std::string(1, (char) ('0' + i / 26));
	r.from = Time::from_hms(0, 0, 1, 0);
	r.to = Time::from_hms(0, 0, 2, 0);
	r.vertical_position = on_line(0);
	return r;
}

// where each raw subtitle has gone: (subtitle, line, block) in order
struct Place { int sub, line; std::string text; };
template <class T>
static std::vector<Place> flatten (T const& c)
{
	std::vector<Place> p;
	int s = 0;
	for (Subtitle const& i: c) {
		vp_assert(!i.lines.empty(), "a subtitle with no lines");
		int l = 0;
		for (Line const& j: i.lines) {
			vp_assert(!j.blocks.empty(), "a line with no blocks");
			for (Block const& k: j.blocks) { Place q = {s, l, k.text}; p.push_back(q); }
			++l;
		}
		++s;
	}
	return p;
}

// expected places from an order and, for neighbours in that order, whether they share a subtitle and a line
static void expect (std::vector<Place> const& got, std::vector<std::string> const& order, std::vector<int> const& same_sub, std::vector<int> const& same_line)
{
	vp_assert(got.size() == order.size(), "raw subtitles are lost or duplicated");
	if (got.size() != order.size()) vp_stop();
	int s = 0, l = 0;
	for (size_t i = 0; i < got.size(); ++i) {
		if (i) {
			if (!same_sub[i]) { ++s; l = 0; }
			else if (!same_line[i]) ++l;
		}
		vp_assert(got[i].text == order[i], "blocks are not in order of start time and then of input");
		vp_assert(got[i].sub == s, "raw subtitles are grouped into the wrong subtitle");
		vp_assert(got[i].line == l, "raw subtitles are grouped into the wrong line");
		vp_observe(got[i].sub * 100 + got[i].line);
	}
}

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: case 6: {
		int n = vp_case() == 6 ? 3 : vp_choice("count", vp_tier() ? 6 : 5);
		std::vector<RawSubtitle> r;
		std::vector<ll> from, to, line;
		int without = vp_case() == 6 ? vp_choice("without text", 4) : -1;
		for (int i = 0; i < n; ++i) {
			from.push_back(vp_range("start", 0, 2));
			to.push_back(vp_case() == 6 ? 3 : vp_range("end", 3, 4));
			line.push_back(vp_range("line", 0, 1));
			RawSubtitle s = raw(i);
			s.from = Time::from_hms(0, 0, (int) from[i], 0);
			s.to = Time::from_hms(0, 0, (int) to[i], 0);
			s.vertical_position = on_line(line[i]);
			if (i == without) s.text = "";
			r.push_back(s);
		}
		std::vector<Subtitle> out = collect<std::vector<Subtitle> >(r);
		std::vector<Place> got = flatten(out);
		if (vp_case() == 6) {
			std::vector<Place> l = flatten(collect<std::list<Subtitle> >(r)), d = flatten(collect<std::deque<Subtitle> >(r));
			vp_assert(l.size() == got.size() && d.size() == got.size(), "containers differ in size");
			for (size_t i = 0; i < got.size() && i < l.size() && i < d.size(); ++i)
				vp_assert(got[i].text == l[i].text && got[i].text == d[i].text && got[i].sub == l[i].sub && got[i].sub == d[i].sub && got[i].line == l[i].line && got[i].line == d[i].line, "containers differ");
		}
		// stable order by counting: rank of i = how many come before it
		std::vector<int> at (n);
		for (int i = 0; i < n; ++i) {
			int rank = 0;
			for (int j = 0; j < n; ++j) if (j != i && (j < i ? from[j] <= from[i] : from[j] < from[i])) ++rank;
			at[rank] = i;
		}
		std::vector<std::string> order;
		std::vector<int> ss, sl;
		for (int i = 0; i < n; ++i) {
			order.push_back(r[at[i]].text);
			int p = i ? at[i - 1] : 0;
			ss.push_back(from[at[i]] == from[p] && to[at[i]] == to[p]);
			sl.push_back(line[at[i]] == line[p]);
		}
		expect(got, order, ss, sl);
		for (size_t i = 0, k = 0; i < out.size(); ++i) {
			vp_assert(out[i].from.seconds() == from[at[k]] && out[i].to.seconds() == to[at[k]], "a subtitle has not the times of its raw subtitles");
			for (size_t j = 0; j < out[i].lines.size(); ++j) k += out[i].lines[j].blocks.size();
		}
		vp_cover("end");
		break;
	}
	case 1: {
		std::vector<RawSubtitle> r;
		int kind[3];
		ll up[3], down[3];
		for (int i = 0; i < 3; ++i) {
			kind[i] = vp_choice("fades", 4);
			up[i] = vp_range("fade up", 0, 1);
			down[i] = vp_range("fade down", 0, 1);
			RawSubtitle s = raw(i);
			if (kind[i] & 1) s.fade_up = Time::from_hms(0, 0, 0, (int) up[i]);
			if (kind[i] & 2) s.fade_down = Time::from_hms(0, 0, 0, (int) down[i]);
			r.push_back(s);
		}
		std::vector<Subtitle> out = collect<std::vector<Subtitle> >(r);
		std::vector<std::string> order;
		std::vector<int> ss, sl;
		for (int i = 0; i < 3; ++i) {
			order.push_back(r[i].text);
			int p = i ? i - 1 : 0;
			bool same = kind[i] == kind[p];
			if (same && (kind[i] & 1)) same = up[i] == up[p];
			if (same && (kind[i] & 2)) same = down[i] == down[p];
			ss.push_back(same);
			sl.push_back(1);
			if (i && same) vp_cover("same");
			if (i && !same) vp_cover("different");
		}
		expect(flatten(out), order, ss, sl);
		for (size_t i = 0; i < out.size(); ++i) vp_assert(out[i].fade_up == r[out.size() == 3 ? i : out[i].lines[0].blocks[0].text[0] - 'A'].fade_up && out[i].fade_down == r[out[i].lines[0].blocks[0].text[0] - 'A'].fade_down, "a subtitle has not the fades of its raw subtitles");
		break;
	}
	case 2: {
		// 0-2 proportion from a reference, 3-5 line of lines, 6 unspecified, 7 line without reference, 8 line without lines
		std::vector<RawSubtitle> r;
		int kind[3];
		ll v[3];
		static VerticalReference const refs[3] = {TOP_OF_SCREEN, VERTICAL_CENTRE_OF_SCREEN, BOTTOM_OF_SCREEN};
		for (int i = 0; i < 3; ++i) {
			kind[i] = vp_choice("kind", 9);
			v[i] = vp_range("value", 0, 1);
			RawSubtitle s = raw(i);
			VerticalPosition p;
			if (kind[i] < 3) p.proportional = (float) v[i] / 2;
			else if (kind[i] != 6) p.line = (int) v[i];
			if (kind[i] >= 3 && kind[i] < 6) p.lines = 23;
			if (kind[i] < 6) p.reference = refs[kind[i] % 3];
			if (kind[i] == 8) p.reference = TOP_OF_SUBTITLE;
			s.vertical_position = p;
			r.push_back(s);
		}
		std::vector<Subtitle> out = collect<std::vector<Subtitle> >(r);
		std::vector<std::string> order;
		std::vector<int> ss (3, 1), sl;
		for (int i = 0; i < 3; ++i) {
			order.push_back(r[i].text);
			int p = i ? i - 1 : 0;
			bool same = kind[i] == kind[p] && kind[i] != 6 && kind[i] != 7;
			if (same) same = v[i] == v[p];
			sl.push_back(same);
			if (i) vp_cover(same ? "same line" : "other line");
		}
		expect(flatten(out), order, ss, sl);
		break;
	}
	case 3: {
		std::vector<RawSubtitle> r;
		ll v[2][16], line = vp_range("line of second", 0, 1);
		int opts = vp_choice("optional parts", 4), hr = vp_choice("reference", 3);
		static HorizontalReference const refs[3] = {LEFT_OF_SCREEN, HORIZONTAL_CENTRE_OF_SCREEN, RIGHT_OF_SCREEN};
		for (int i = 0; i < 2; ++i) {
			RawSubtitle s = raw(i);
			for (int j = 0; j < 16; ++j) v[i][j] = vp_range("field", 0, j < 4 ? 1 : 200);
			s.bold = v[i][0]; s.italic = v[i][1]; s.underline = v[i][2];
			if (opts & 1) { s.effect = v[i][3] ? BORDER : SHADOW; s.effect_colour = Colour((float) v[i][4] / 255, (float) v[i][5] / 255, (float) v[i][6] / 255); }
			s.colour = Colour((float) v[i][7] / 255, (float) v[i][8] / 255, (float) v[i][9] / 255);
			if (opts & 2) { s.font = std::string("F") + (char) v[i][10]; s.font_size = FontSize::from_points((int) v[i][11]); }
			else s.font_size = FontSize::from_proportional((float) v[i][11] / 256);
			s.text = std::string("x") + (char) v[i][12] + (char) v[i][13];
			s.horizontal_position.reference = refs[(hr + i) % 3];
			s.horizontal_position.proportional = (float) v[i][14] / 256;
			s.vertical_position = on_line(i ? line : 0);
			r.push_back(s);
		}
		std::vector<Subtitle> out = collect<std::vector<Subtitle> >(r);
		vp_assert(out.size() == 1, "raw subtitles at the same times are in different subtitles");
		std::vector<Block> b;
		std::vector<Line const*> l;
		for (size_t i = 0; i < out[0].lines.size(); ++i) for (size_t j = 0; j < out[0].lines[i].blocks.size(); ++j) { b.push_back(out[0].lines[i].blocks[j]); l.push_back(&out[0].lines[i]); }
		vp_assert(b.size() == 2, "a raw subtitle is lost or duplicated");
		if (b.size() != 2) vp_stop();
		vp_assert((int) (l[0] == l[1]) == (int) (line == 0), "raw subtitles are grouped into the wrong line");
		All all;
		for (int i = 0; i < 2; ++i) {
			all.add((b[i].bold == (v[i][0] != 0)) & (b[i].italic == (v[i][1] != 0)) & (b[i].underline == (v[i][2] != 0)));
			if (opts & 1) {
				vp_assert(b[i].effect && b[i].effect_colour, "an effect is lost");
				all.add(((b[i].effect.get() == BORDER) == (v[i][3] != 0)) & (b[i].effect_colour->r == (float) v[i][4] / 255) & (b[i].effect_colour->g == (float) v[i][5] / 255) & (b[i].effect_colour->b == (float) v[i][6] / 255));
			} else vp_assert(!b[i].effect && !b[i].effect_colour, "an effect appears");
			all.add((b[i].colour.r == (float) v[i][7] / 255) & (b[i].colour.g == (float) v[i][8] / 255) & (b[i].colour.b == (float) v[i][9] / 255));
			if (opts & 2) {
				vp_assert(b[i].font && b[i].font_size.points() && !b[i].font_size.proportional(), "a font is lost");
				all.add(vp_str_eq(b[i].font.get(), r[i].font.get()));
				all.add(b[i].font_size.points().get() == v[i][11]);
			} else {
				vp_assert(!b[i].font && !b[i].font_size.points() && b[i].font_size.proportional(), "a font appears");
				all.add(b[i].font_size.proportional().get() == (float) v[i][11] / 256);
			}
			all.add(vp_str_eq(b[i].text, r[i].text));
			if (i == 0 || l[0] != l[1]) {
				vp_assert(l[i]->horizontal_position.reference == refs[(hr + i) % 3], "a line's horizontal reference is changed");
				all.add(l[i]->horizontal_position.proportional == (float) v[i][14] / 256);
			}
			vp_assert(l[i]->vertical_position.reference && l[i]->vertical_position.reference.get() == TOP_OF_SCREEN && l[i]->vertical_position.lines.get() == 23, "a line's vertical position is changed");
			if (i == 1) all.add(l[i]->vertical_position.line.get() == line);
		}
		vp_assert(all.v, "a block or line has not the style of its raw subtitle");
		vp_cover("end");
		break;
	}
	case 4: {
		int n = vp_choice("count", 2) ? 40 : 20, pattern = vp_choice("pattern", 3);
		std::vector<RawSubtitle> r;
		std::vector<ll> from;
		int a = vp_choice("first", 10) * n / 10, b = vp_choice("second", 4) * n / 4 + 1;
		for (int i = 0; i < n; ++i) {
			ll f = pattern == 0 ? 1 : pattern == 1 ? i % 2 + 1 : 3 - i * 3 / n;
			if (i == a || i == b) f = vp_range("start", 0, 3);
			from.push_back(f);
			RawSubtitle s = raw(i);
			s.from = Time::from_hms(0, 0, (int) f, 0);
			s.to = Time::from_hms(0, 0, 10, 0);
			s.vertical_position = on_line(i % 3);
			r.push_back(s);
		}
		std::vector<Subtitle> out = collect<std::vector<Subtitle> >(r);
		std::vector<std::string> order;
		std::vector<int> ss, sl;
		int last = -1;
		for (ll t = 0; t <= 3; ++t) for (int i = 0; i < n; ++i) if (from[i] == t) {
			order.push_back(r[i].text);
			ss.push_back(last >= 0 && from[last] == t);
			sl.push_back(last >= 0 && last % 3 == i % 3);
			last = i;
		}
		expect(flatten(out), order, ss, sl);
		vp_cover("end");
		break;
	}
	case 5: {
		static int const rate[3] = {24, 25, 1000};
		std::vector<RawSubtitle> r;
		int k[3];
		ll f[3];
		for (int i = 0; i < 3; ++i) {
			k[i] = vp_choice("rate", 4);
			f[i] = vp_range("frames", 0, k[i] == 3 ? 25 : rate[k[i]] == 1000 ? 45 : rate[k[i]] - 1);
			RawSubtitle s = raw(i);
			s.from = k[i] == 3 ? Time::from_hmsf(0, 0, 1, (int) f[i]) : Time::from_hmsf(0, 0, 1, (int) f[i], Rational(rate[k[i]], 1));
			r.push_back(s);
		}
		std::vector<Subtitle> out;
		bool mixed = false;
		for (int i = 1; i < 3; ++i) if ((k[i] == 3) != (k[0] == 3)) mixed = true;
		try {
			out = collect<std::vector<Subtitle> >(r);
		} catch (UnknownFrameRateError&) {
			vp_assert(mixed, "comparable times are refused");
			vp_cover("throws");
			vp_stop();
		}
		if (mixed) vp_stop();
		// in units of 1/3000 second
		ll u[3];
		for (int i = 0; i < 3; ++i) u[i] = k[i] == 3 ? f[i] : f[i] * (3000 / rate[k[i]]);
		std::vector<int> at (3);
		for (int i = 0; i < 3; ++i) {
			int rank = 0;
			for (int j = 0; j < 3; ++j) if (j != i && (j < i ? u[j] <= u[i] : u[j] < u[i])) ++rank;
			at[rank] = i;
		}
		std::vector<std::string> order;
		std::vector<int> ss, sl (3, 1);
		for (int i = 0; i < 3; ++i) {
			order.push_back(r[at[i]].text);
			ss.push_back(i && u[at[i]] == u[at[i - 1]]);
		}
		expect(flatten(out), order, ss, sl);
		vp_cover("end");
		break;
	}
	}
}
