// documents and expectations shared by the SubRip and WebVTT harnesses
#ifndef VP_SUBRIP_H
#define VP_SUBRIP_H
#include "common.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include "exceptions.h"
using namespace sub;

struct Run {
	std::string text;
	ll from, to;	// milliseconds
	int line;
	bool bold, italic, underline;
	double r, g, b;
	Run (std::string t, ll f, ll o, int l) : text(t), from(f), to(o), line(l), bold(false), italic(false), underline(false), r(1), g(1), b(1) {}
};

static inline std::string stamp (ll ms, char sep)
{
	return digits(ms / 3600000, 2) + ":" + digits(ms / 60000 % 60, 2) + ":" + digits(ms / 1000 % 60, 2) + sep + digits(ms % 1000, 3);
}

static inline int at (Time const& t, ll ms)
{
	return BOTH((ll) t.hours() * 3600 + t.minutes() * 60 + t.seconds() == ms / 1000, t.milliseconds() == ms % 1000);
}
static inline int about (double a, double b) { return (a - b < 1e-6) & (b - a < 1e-6); }

static inline void check_runs (std::vector<RawSubtitle> const& got, std::vector<Run> const& want)
{
	vp_assert(got.size() == want.size(), "the number of runs is wrong");
	if (got.size() != want.size()) vp_stop();
	All text, style, place, time;
	for (size_t i = 0; i < got.size(); ++i) {
		RawSubtitle const& g = got[i];
		Run const& w = want[i];
		text.add(vp_str_eq(g.text, w.text));
		time.add(BOTH(at(g.from, w.from), at(g.to, w.to)));
		vp_assert(!g.vertical_position.proportional && g.vertical_position.line && g.vertical_position.reference && g.vertical_position.reference.get() == TOP_OF_SUBTITLE, "a run's vertical position is not a line from the top of the subtitle");
		place.add(g.vertical_position.line.get() == w.line);
		style.add((g.bold == w.bold) & (g.italic == w.italic) & (g.underline == w.underline));
		style.add(BOTH(about(g.colour.r, w.r), BOTH(about(g.colour.g, w.g), about(g.colour.b, w.b))));
		style.add(!g.font & !g.effect & !g.fade_up & !g.fade_down & !g.font_size.specified());
		vp_observe_str(g.text);
		vp_observe(g.vertical_position.line.get());
	}
	vp_assert(text.v, "a run has the wrong text");
	vp_assert(time.v, "a run has the wrong times");
	vp_assert(place.v, "a run is on the wrong line");
	vp_assert(style.v, "a run has the wrong style");
}
#endif
