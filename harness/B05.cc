//@ src exceptions.cc stl_binary_tables.cc
//@ case 0 any language code :: every string of 0..3 bytes [quick=90]
//@ case 1 every language encoded and described :: all 103 languages [quick=90]
//@ case 2 any display standard, language group or timecode status code :: every string of 0..3 bytes [quick=60]
//@ case 3 any cumulative status, justification or comment code :: every int [quick=30]
//@ case 4 encodings and descriptions of the smaller tables :: every value, every pair of values [quick=60]
//@ case 5 descriptions of languages :: every description with one byte changed to any other [quick=100]
//@ cover 0: known, refused
//@ cover 1: end
//@ cover 2: known, refused
//@ cover 3: known, refused
//@ cover 4: end
//@ cover 5: none
#include "common.h"
#include "stl_binary_tables.h"
#include "exceptions.h"
using namespace sub;

static int const nlang = LANGUAGE_ZULU + 1;

// value of an upper-case hex digit, or -1000, without branching
static ll hexv (int c)
{
	return vp_ite((c >= '0') & (c <= '9'), c - '0', vp_ite((c >= 'A') & (c <= 'F'), c - 'A' + 10, -1000));
}

// EBU Tech 3264 appendix 3: codes 00h-2Bh in order, then 7Fh down to 45h; -1 for anything else
static ll language (std::string const& s)
{
	if (s.size() != 2) return -1;
	ll n = hexv((unsigned char) s[0]) * 16 + hexv((unsigned char) s[1]);
	return vp_ite((n >= 0) & (n <= 0x2b), n, vp_ite((n >= 0x45) & (n <= 0x7f), 0x2c + 0x7f - n, -1));
}

static std::string language_code (int v)
{
	int n = v <= 0x2b ? v : 0x7f - (v - 0x2c);
	static char const hex[] = "0123456789ABCDEF";
	return std::string(1, hex[n / 16]) + hex[n % 16];
}

static std::string any (int max)
{
	std::string s (vp_choice("length", max + 1), ' ');
	for (size_t i = 0; i < s.size(); ++i) s[i] = (char) vp_byte("byte");
	return s;
}

extern "C" void vp_harness ()
{
	STLBinaryTables t;
	switch (vp_case()) {
	case 0: {
		std::string s = any(3);
		int r = -1;
		try { r = t.language_file_to_enum(s); } catch (STLError&) {}
		vp_assert(language(s) == r, r < 0 ? "a language code is refused" : "a language code decodes to the wrong language or should be refused");
		vp_observe(r);
		vp_cover(r >= 0 ? "known" : "refused");
		break;
	}
	case 1: {
		int v = vp_choice("language", nlang);
		std::string c = t.language_enum_to_file((Language) v), d = t.language_enum_to_description((Language) v);
		vp_assert(c == language_code(v), "a language is written with the wrong code");
		vp_assert(t.language_file_to_enum(c) == v, "a language code does not decode to its language");
		vp_assert(!d.empty(), "a language has no description");
		boost::optional<Language> back = t.language_description_to_enum(d);
		vp_assert(back && back.get() == v, "a language's description is not its own");
		vp_cover("end");
		break;
	}
	case 2: {
		int which = vp_choice("table", 3);
		std::string s = any(3);
		int r = -1;
		ll want = -1;
		int c = s.size() ? (unsigned char) s[0] : 0;
		try {
			switch (which) {
			case 0:
				if (s.size() == 1) want = vp_ite(c == ' ', 0, vp_ite(c == '0', 1, vp_ite(c == '1', 2, vp_ite(c == '2', 3, -1))));
				r = t.display_standard_file_to_enum(s);
				break;
			case 1:
				if (s.size() == 2) {
					int e = (unsigned char) s[1];
					want = vp_ite((c == '0') & (e >= '0') & (e <= '4'), e - '0', vp_ite((c == 'U') & (e == '8'), (ll) LANGUAGE_GROUP_UTF8, -1));
				}
				r = t.language_group_file_to_enum(s);
				break;
			case 2:
				if (s.size() == 1) want = vp_ite((c == '0') | (c == '1'), c - '0', -1);
				r = t.timecode_status_file_to_enum(s);
				break;
			}
		} catch (STLError&) {}
		vp_assert(want == r, "a code is decoded to the wrong value, or wrongly refused or accepted");
		vp_observe(r);
		vp_cover(r >= 0 ? "known" : "refused");
		break;
	}
	case 3: {
		int which = vp_choice("table", 3);
		ll n = vp_range("code", -2147483648ll, 2147483647ll), max = which == 2 ? 1 : 3;
		int r = -1;
		try {
			switch (which) {
			case 0: r = t.cumulative_status_file_to_enum((int) n); break;
			case 1: r = t.justification_file_to_enum((int) n); break;
			case 2: r = t.comment_file_to_enum((int) n); break;
			}
		} catch (STLError&) {}
		vp_assert(vp_ite((n >= 0) & (n <= max), n, -1) == r, "a code is decoded to the wrong value, or wrongly refused or accepted");
		vp_observe(r);
		vp_cover(r >= 0 ? "known" : "refused");
		break;
	}
	case 4: {
		static int const size[7] = {4, 6, nlang, 2, 4, 4, 2};
		int which = vp_choice("table", 7);
		if (which == 2) vp_stop();
		std::vector<std::string> ds;
		for (int v = 0; v < size[which]; ++v) {
			std::string d;
			switch (which) {
			case 0: d = t.display_standard_enum_to_description((DisplayStandard) v); break;
			case 1: d = t.language_group_enum_to_description((LanguageGroup) v); break;
			case 3: d = t.timecode_status_enum_to_description((TimecodeStatus) v); break;
			case 4: d = t.cumulative_status_enum_to_description((CumulativeStatus) v); vp_assert(t.cumulative_status_enum_to_file((CumulativeStatus) v) == v, "cumulative status written with the wrong code"); break;
			case 5: d = t.justification_enum_to_description((Justification) v); vp_assert(t.justification_enum_to_file((Justification) v) == v, "justification written with the wrong code"); break;
			case 6: d = t.comment_enum_to_description((Comment) v); vp_assert(t.comment_enum_to_file((Comment) v) == v, "comment status written with the wrong code"); break;
			}
			vp_assert(!d.empty(), "a value has no description");
			for (size_t i = 0; i < ds.size(); ++i) vp_assert(ds[i] != d, "two values share a description");
			ds.push_back(d);
		}
		vp_cover("end");
		break;
	}
	case 5: {
		int v = vp_choice("language", nlang);
		std::string d = t.language_enum_to_description((Language) v);
		int k = vp_choice("position", 12);
		if (k >= (int) d.size()) vp_stop();
		d[k] = (char) vp_byte("byte");
		boost::optional<Language> back = t.language_description_to_enum(d);
		if (back) vp_assert(vp_str_eq(d, t.language_enum_to_description(back.get())), "a description finds a language that does not have it");
		else vp_cover("none");
		vp_observe(back ? back.get() : -1);
		break;
	}
	}
}
