// shared by the SSA harnesses
#ifndef VP_SSA_H
#define VP_SSA_H
#include "common.h"
#include "ssa_reader.h"
#include "exceptions.h"
using namespace sub;

// to single precision
static inline int about (double a, double b) { double e = 1e-6 * (1 + (b < 0 ? -b : b)); return (a - b < e) & (b - a < e); }
static inline int same_colour (Colour const& c, double r, double g, double b) { return BOTH(about(c.r, r / 255), BOTH(about(c.g, g / 255), about(c.b, b / 255))); }

static inline std::vector<RawSubtitle> parse (std::string const& doc)
{
	try {
		return SSAReader(doc).subtitles();
	} catch (std::exception& e) {
		vp_fail("a well-formed document is refused");
	}
	return std::vector<RawSubtitle>();
}

static inline std::vector<RawSubtitle> parse_line (RawSubtitle const& base, std::string const& t, SSAReader::Context const& c)
{
	try {
		return SSAReader::parse_line(base, t, c);
	} catch (std::exception& e) {
		vp_fail("a well-formed line is refused");
	}
	return std::vector<RawSubtitle>();
}

// a symbolic integer in [lo, lo + 249] or so, as unpadded text; `blocks` blocks of up to 250 values
static inline ll number (char const* name, ll lo, ll hi, std::string& text)
{
	// split at powers of ten and at multiples of 250
	std::vector<std::pair<ll, ll> > parts;
	ll a = lo;
	while (a <= hi) {
		ll b = a + 249 < hi ? a + 249 : hi;
		for (ll p = 10; p <= 100000000; p *= 10) if (a < p && b >= p) b = p - 1;
		parts.push_back(std::make_pair(a, b));
		a = b + 1;
	}
	int k = parts.size() > 1 ? vp_choice(name, (int) parts.size()) : 0;
	int width = 1;
	for (ll p = 10; p <= parts[k].first; p *= 10) ++width;
	ll v = parts[k].first == parts[k].second ? parts[k].first : vp_range(name, parts[k].first, parts[k].second);
	text = digits(v, width);
	return v;
}
static inline char text_byte (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != '\n') & (c != '\r') & (c != '\\') & (c != '{') & (c != 0));
	return c;
}
#endif
