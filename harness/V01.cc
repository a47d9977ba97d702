//@ src colour.cc effect.cc exceptions.cc font_size.cc horizontal_position.cc rational.cc raw_subtitle.cc sub_time.cc subtitle.cc vertical_position.cc vertical_reference.cc
//@ case 0 fraction_from_screen_top :: every combination of parts present; proportions k/64 for k = -64..191, lines -100..150 of 8 screen heights [quick=60]
//@ case 1 ordering :: every pair of kinds of position, one with any of 250 values, the other from 9 values [quick=60]
//@ case 2 equality of vertical positions :: every pair of kinds of position, values from 0..5 symbolic in each [quick=60]
//@ case 3 equality of horizontal positions, font sizes and colours :: proportions within 0..250/5000 of each other at 6 places, components from 0..7 sevenths or 8192nds symbolic [quick=60]
//@ case 4 font size conversions :: points 1..400 at screen heights from 12 values; proportions k/1000 [quick=60]
//@ case 5 names of effects and vertical references :: every string of 0..7 bytes that differs from a name in up to two bytes [quick=60]
//@ case 6 blocks, lines and subtitles :: equal exactly when their parts are, any one of 16 parts changed, values 0..3 symbolic [quick=60]
//@ cover 0: unspecified, proportional, line
//@ cover 1: end
//@ cover 2: equal, different
//@ cover 3: end
//@ cover 4: points, proportional
//@ cover 5: border, shadow, none, refused, top, bottom, center
//@ cover 6: end
//@ assume proportions are compared to a tolerance of 1e-5; horizontal positions within 1/1998 of each other are the same position, as documented in the code
#include "common.h"
#include "vertical_position.h"
#include "horizontal_position.h"
#include "font_size.h"
#include "colour.h"
#include "effect.h"
#include "vertical_reference.h"
#include "subtitle.h"
#include "exceptions.h"
using namespace sub;

static int const heights[8] = {1, 2, 10, 23, 12, 100, 288, 1998};
static VerticalReference const refs[4] = {TOP_OF_SCREEN, VERTICAL_CENTRE_OF_SCREEN, BOTTOM_OF_SCREEN, TOP_OF_SUBTITLE};

// kinds: 0-3 proportion from refs[kind]; 4-7 line of lines; 8-11 line only; 12 proportion without reference; 13 line of lines without reference; 14 nothing; 15 reference only; 16: lines and reference only
static int const nkinds = 17;
static VerticalPosition make (int kind, ll value, int height)
{
	VerticalPosition p;
	if (kind < 4 || kind == 12) p.proportional = (float) value / 64;
	if ((kind >= 4 && kind < 12) || kind == 13) p.line = (int) value;
	if ((kind >= 4 && kind < 8) || kind == 13 || kind == 16) p.lines = height;
	if (kind < 12) p.reference = refs[kind % 4];
	if (kind >= 15) p.reference = TOP_OF_SCREEN;
	return p;
}
// numerator of the fraction from the top, over 64 * height
static ll fraction (int kind, ll value, int height)
{
	if (kind >= 8) return 0;
	ll n = kind < 4 ? value * height : value * 64;
	switch (kind % 4) {
	case 1: return n + 32 * height;
	case 2: return 64 * height - n;
	}
	return n;
}
static bool full (int kind) { return kind < 8; }
static int close_to (double a, double b) { double d = a - b; return (d < 1e-5) & (d > -1e-5); }


extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		int kind = vp_choice("kind", nkinds), h = heights[vp_choice("height", 8)];
		ll v = kind < 4 || kind == 12 ? vp_range("proportion", -64, 191) : vp_range("line", -100, 150);
		VerticalPosition p = make(kind, v, h);
		float f = p.fraction_from_screen_top();
		vp_assert(close_to(f, (double) fraction(kind, v, h) / (64 * h)), "the fraction from the top of the screen is wrong");
		vp_cover(kind >= 8 ? "unspecified" : kind < 4 ? "proportional" : "line");
		break;
	}
	case 1: {
		int ka = vp_choice("kind of a", nkinds), kb = vp_choice("kind of b", nkinds);
		int hs[4] = {23, 12, 100, 288};
		int ha = hs[vp_choice("height of a", vp_tier() ? 4 : 2)], hb = hs[vp_choice("height of b", vp_tier() ? 4 : 2)];
		static int const some[9] = {-5, 0, 1, 2, 11, 22, 23, 64, 150};
		ll va = vp_range("value of a", -50, 200), vb = some[vp_choice("value of b", 9)];
		VerticalPosition a = make(ka, va, ha), b = make(kb, vb, hb);
		bool lt = a < b, gt = b < a;
		double d = (double) fraction(ka, va, ha) / (64 * ha) - (double) fraction(kb, vb, hb) / (64 * hb);
		int far = (d > 1e-5) | (d < -1e-5);
		vp_assert(EITHER(!far, BOTH((int) lt == (int) (d < 0), (int) gt == (int) (d > 0))), "positions are not ordered by their fractions of the screen");
		vp_assert(!(lt && gt), "each of two positions is before the other");
		vp_assert(lt == (a.fraction_from_screen_top() < b.fraction_from_screen_top()), "positions are not ordered by their fractions of the screen");
		vp_cover("end");
		break;
	}
	case 2: {
		int ka = vp_choice("kind of a", nkinds), kb = vp_choice("kind of b", nkinds);
		ll va = vp_range("value of a", 0, 5), vb = vp_range("value of b", 0, 5);
		int ha = (int) vp_range("height of a", 22, 24), hb = (int) vp_range("height of b", 22, 24);
		VerticalPosition a = make(ka, va, ha), b = make(kb, vb, hb);
		bool e = a == b, r = b == a;
		vp_assert(e == r, "equality is not symmetric");
		if (full(ka) && full(kb)) {
			int same = ka == kb;
			if (same) same = BOTH(va == vb, ka < 4 ? 1 : ha == hb);
			vp_assert(same == (int) e, "two positions compare equal although they differ, or differ although they are the same");
		}
		if (full(ka)) vp_assert(a == a, "a position is not equal to itself");
		vp_cover(e ? "equal" : "different");
		break;
	}
	case 3: {
		int which = vp_choice("type", 4);
		static HorizontalReference const hr[3] = {LEFT_OF_SCREEN, HORIZONTAL_CENTRE_OF_SCREEN, RIGHT_OF_SCREEN};
		switch (which) {
		case 0: {
			static float const at[6] = {0, 0.25f, 0.5f, -0.5f, 1, 0.1f};
			HorizontalPosition a, b;
			int ra = vp_choice("reference of a", 3), rb = vp_choice("reference of b", 3);
			a.reference = hr[ra];
			b.reference = hr[rb];
			a.proportional = at[vp_choice("place", 6)];
			ll k = vp_range("difference * 20000", -120, 120);
			b.proportional = a.proportional + (float) k / 20000;
			int near = (k <= 9) & (k >= -9), far = (k >= 11) | (k <= -11);
			bool e = a == b;
			vp_assert(e == (b == a), "equality is not symmetric");
			if (ra != rb) vp_assert(!e, "horizontal positions with different references are equal");
			else {
				vp_assert(EITHER(!near, e), "the same horizontal position is not equal");
				vp_assert(EITHER(!far, !e), "different horizontal positions are equal");
			}
			break;
		}
		case 1: {
			ll pa = vp_range("points of a", 0, 7), pb = vp_range("points of b", 0, 7), qa = vp_range("proportion of a", 0, 7), qb = vp_range("proportion of b", 0, 7);
			int sa = vp_choice("parts of a", 4), sb = vp_choice("parts of b", 4);
			FontSize a, b;
			if (sa & 1) a.set_points((int) pa);
			if (sa & 2) a.set_proportional((float) qa / 8);
			if (sb & 1) b.set_points((int) pb);
			if (sb & 2) b.set_proportional((float) qb / 8);
			int same = sa == sb;
			if (same && (sa & 1)) same = BOTH(same, pa == pb);
			if (same && (sa & 2)) same = BOTH(same, qa == qb);
			vp_assert((a == b) == same, "font sizes compare equal although they differ, or differ although they are the same");
			vp_assert(a.specified() == (sa != 0), "specified() is wrong");
			break;
		}
		case 2: case 3: {
			ll c[6];
			for (int i = 0; i < 6; ++i) c[i] = vp_range("component", 0, 7);
			// far from each other or very near
			float const base = vp_choice("near", 2) ? 0.5f : 0, div = base > 0 ? 8192 : 7;
			Colour a (base + (float) c[0] / div, base + (float) c[1] / div, base + (float) c[2] / div), b (base + (float) c[3] / div, base + (float) c[4] / div, base + (float) c[5] / div);
			vp_assert((a == b) == ((c[0] == c[3]) & (c[1] == c[4]) & (c[2] == c[5])), "colours compare equal although they differ, or differ although they are the same");
			break;
		}
		}
		vp_cover("end");
		break;
	}
	case 4: {
		static int const screen[12] = {72, 100, 216, 288, 384, 480, 576, 720, 792, 842, 1080, 2160};
		int h = screen[vp_choice("screen height", 12)];
		if (vp_choice("kind", 2) == 0) {
			ll p = vp_range("points", 1, 200) + 200 * vp_choice("block", 2);
			FontSize a = FontSize::from_points((int) p);
			vp_assert(a.points() && a.points().get() == p && !a.proportional(), "a size in points is not stored as it is given");
			vp_assert(a.points(h) == p, "a size in points is changed");
			float q = a.proportional(h);
			vp_assert(close_to(q, (double) p / h), "points are not converted to their proportion of the screen");
			vp_assert(FontSize::from_proportional(q).points(h) == p, "converting a size to a proportion and back changes it");
			vp_cover("points");
		} else {
			ll k = vp_range("proportion * 1000", 0, 200);
			float q = (float) k / 1000;
			FontSize a = FontSize::from_proportional(q);
			vp_assert(a.proportional() && a.proportional().get() == q && !a.points(), "a proportional size is not stored as it is given");
			vp_assert(a.proportional(h) == q, "a proportional size is changed");
			ll pt = a.points(h);
			vp_assert((pt * 2000 <= 2 * k * h + 1001) & (pt * 2000 >= 2 * k * h - 1001), "a proportion is not converted to the nearest point");
			vp_observe(pt);
			vp_cover("proportional");
		}
		break;
	}
	case 5: {
		bool vertical = vp_choice("kind", 2);
		static char const* const effects[3] = {"none", "border", "shadow"}, * const references[3] = {"top", "bottom", "center"};
		char const* const* const names = vertical ? references : effects;
		std::string s = names[vp_choice("name", 3)];
		int n = vp_choice("length", 8);
		s.resize(n, 'w');
		int a = vp_choice("position", 8), b = vp_choice("other position", 8);
		if (a < b || (a == b && a > 0)) vp_stop();
		if (a < n) s[a] = (char) vp_byte("character");
		if (b < n && b != a) s[b] = (char) vp_byte("other character");
		int got = -1;
		try {
			if (vertical) {
				VerticalReference r = string_to_vertical_reference(s);
				got = r == TOP_OF_SCREEN ? 0 : r == BOTTOM_OF_SCREEN ? 1 : r == VERTICAL_CENTRE_OF_SCREEN ? 2 : 3;
			} else {
				boost::optional<Effect> e = string_to_effect(s);
				got = !e ? 0 : e.get() == BORDER ? 1 : 2;
			}
		} catch (XMLError&) {}
		for (int i = 0; i < 3; ++i) vp_assert(vp_str_eq(s, names[i]) == (got == i), "a name is not recognised, or taken for another");
		vp_observe(got);
		vp_assert(got < 3, "a name gives another value");
		vp_cover(got < 0 ? "refused" : names[got]);
		break;
	}
	case 6: {
		int what = vp_choice("part", 16);
		ll x = vp_range("value in a", 0, 3), y = vp_range("value in b", 0, 3);
		Subtitle s[2];
		for (int i = 0; i < 2; ++i) {
			ll v = i ? y : x;
			Block b;
			b.text = "text"; b.font = std::string("Arial"); b.font_size.set_points(42); b.effect = BORDER; b.effect_colour = Colour(0, 0.5f, 1); b.colour = Colour(1, 0, 0.5f);
			Line l;
			l.vertical_position = make(4, 3, 23);
			Subtitle& t = s[i];
			t.from = Time::from_hms(0, 0, 1, 500); t.to = Time::from_hms(0, 0, 2, 0); t.fade_up = Time::from_hms(0, 0, 0, 40); t.fade_down = Time::from_hms(0, 0, 0, 80);
			switch (what) {
			case 0: b.text[2] = (char) ('a' + v); break;
			case 1: b.font = std::string("Font") + (char) ('0' + v); break;
			case 2: b.font_size = FontSize::from_points((int) v); break;
			case 3: b.effect = v == 0 ? BORDER : SHADOW; if (i) vp_assume(y < 2); else vp_assume(x < 2); break;
			case 4: b.effect_colour = Colour((float) v / 3, 0, 0); break;
			case 5: b.colour = Colour(0, (float) v / 3, 0); break;
			case 6: b.bold = v == 0; vp_assume(v < 2); break;
			case 7: b.italic = v == 0; vp_assume(v < 2); break;
			case 8: b.underline = v == 0; vp_assume(v < 2); break;
			case 9: l.vertical_position.line = (int) v; break;
			case 10: l.horizontal_position.proportional = (float) v / 10; break;
			case 11: t.from = Time::from_hms(0, 0, 1, (int) v); break;
			case 12: t.to = Time::from_hms(0, 0, 2, (int) v); break;
			case 13: t.fade_up = Time::from_hms(0, 0, 0, (int) v); break;
			case 14: t.fade_down = Time::from_hms(0, 0, 0, (int) v); break;
			case 15: break;
			}
			l.blocks.push_back(b);
			if (what == 15) for (ll k = vp_concretize(v); k > 0; --k) l.blocks.push_back(b);
			t.lines.push_back(l);
		}
		int same = x == y;
		vp_assert((s[0] == s[1]) == same, "subtitles compare equal although a part differs, or differ although all are the same");
		if (what < 11 || what == 15) vp_assert((s[0].lines[0] == s[1].lines[0]) == same, "lines compare equal although a part differs, or differ although all are the same");
		if (what < 9) vp_assert((s[0].lines[0].blocks[0] == s[1].lines[0].blocks[0]) == same, "blocks compare equal although a part differs, or differ although all are the same");
		vp_cover("end");
		break;
	}
	}
}
