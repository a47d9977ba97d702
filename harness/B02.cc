//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc iso6937.cc iso6937_tables.cc rational.cc raw_subtitle.cc reader.cc stl_binary_reader.cc stl_binary_tables.cc stl_util.cc sub_time.cc subtitle.cc util.cc vertical_position.cc
//@ case 0 text fields :: every byte of all the text fields any (385 bytes) at once [quick=100]
//@ case 1 numbers :: each number any value of its digits, in blocks of 250 [quick=150]
//@ case 2 language codes :: both bytes any [quick=100]
//@ case 3 other coded fields :: display standard, language group and timecode status, each byte any; disk format code with one byte any [quick=100]
//@ case 4 fields that are not read :: every byte from the editor's details to the end of the header any, and every number, with or without TTI blocks [quick=100]
//@ case 5 the counts of blocks :: 0..12 blocks with a count of blocks of 0..12, or that with any other digit, smaller or larger than there are [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: known, refused
//@ cover 3: known, refused
//@ cover 4: end
//@ cover 5: read, refused
//@ assume numbers are written in digits; a maximum of 99 rows (which stands for 12) is left to B01
#include "stl.h"
#include "stl_binary_reader.h"
#include "exceptions.h"
#include <map>
using namespace sub;

struct Field { char const* key; int at, n; std::string (*get) (STLBinaryReader const&); };
#define F(k, a, n, m) { k, a, n, [](STLBinaryReader const& r) { return r.m; } }
static Field const text_fields[] = {
	F("Original programme title", 16, 32, original_programme_title),
	F("Original episode title", 48, 32, original_episode_title),
	F("Translated programme title", 80, 32, translated_programme_title),
	F("Translated episode title", 112, 32, translated_episode_title),
	F("Translator name", 144, 32, translator_name),
	F("Translator contact details", 176, 32, translator_contact_details),
	F("Subtitle list reference code", 208, 16, subtitle_list_reference_code),
	F("Creation date", 224, 6, creation_date),
	F("Revision date", 230, 6, revision_date),
	F("Revision number", 236, 2, revision_number),
	F("Start of programme", 256, 8, start_of_programme),
	F("First in cue", 264, 8, first_in_cue),
	F("Country of origin", 274, 3, country_of_origin),
	F("Publisher", 277, 32, publisher),
	F("Editor name", 309, 32, editor_name),
	F("Editor contact details", 341, 32, editor_contact_details),
};
static int const ntext = sizeof(text_fields) / sizeof(text_fields[0]);
struct Number { char const* key; int at, n; int (*get) (STLBinaryReader const&); };
static Number const numbers[] = {
	F("Code page number", 0, 3, code_page_number),
	F("Number of subtitles", 243, 5, number_of_subtitles),
	F("Subtitle groups", 248, 3, subtitle_groups),
	F("Maximum characters", 251, 2, maximum_characters),
	F("Maximum rows", 253, 2, maximum_rows),
	F("Disks", 272, 1, disks),
	F("Disk sequence number", 273, 1, disk_sequence_number),
	F("TTI blocks", 238, 5, tti_blocks),
};
static int const nnum = sizeof(numbers) / sizeof(numbers[0]);

static int meta (std::map<std::string, std::string> const& m, char const* key, std::string const& value)
{
	std::map<std::string, std::string>::const_iterator i = m.find(key);
	return i != m.end() && vp_str_eq(i->second, value);
}

static ll value (std::string const& f, Number const& n)
{
	ll v = 0;
	for (int i = 0; i < n.n; ++i) v = v * 10 + (f[n.at + i] - '0');
	return v;
}

// `any`: the number whose digits are not concrete, and the text for it
static void check (STLBinaryReader const& r, std::string const& f, int any = -1, std::string const& text = "")
{
	std::map<std::string, std::string> m = r.metadata();
	All fields, nums;
	for (int i = 0; i < ntext; ++i) {
		std::string w = f.substr(text_fields[i].at, text_fields[i].n), g = text_fields[i].get(r);
		vp_assert(g.size() == w.size(), "a field has the wrong length");
		fields.add(vp_str_eq(g, w));
		fields.add(meta(m, text_fields[i].key, w));
		vp_observe_str(g);
	}
	for (int i = 0; i < nnum; ++i) {
		ll v = value(f, numbers[i]);
		nums.add(numbers[i].get(r) == v);
		std::string t = text;
		if (i != any) {
			if (f[numbers[i].at] < '0' || f[numbers[i].at] > '9') continue;
			std::ostringstream s;
			s << v;
			t = s.str();
		}
		nums.add(meta(m, numbers[i].key, t));
		vp_observe(numbers[i].get(r));
	}
	vp_assert(fields.v, "a text field of the header is wrong");
	vp_assert(nums.v, "a number of the header is wrong");
}

static std::string head ()
{
	std::string f = stl_gsi(0);
	for (int i = 0; i < ntext; ++i) for (int j = 0; j < text_fields[i].n; ++j) f[text_fields[i].at + j] = (char) ('A' + (i * 7 + j) % 50);
	f.replace(0, 3, "437"); f.replace(243, 5, "01234"); f.replace(248, 3, "056"); f.replace(251, 2, "78"); f.replace(253, 2, "11"); f.replace(272, 2, "32");
	return f;
}

struct Codes { DisplayStandard ds; LanguageGroup lg; Language l; TimecodeStatus ts; };
static int codes (STLBinaryReader const& r, Codes const& c, bool descriptions = true)
{
	std::map<std::string, std::string> m = r.metadata();
	STLBinaryTables t;
	All ok;
	ok.add(r.display_standard == c.ds);
	ok.add(r.language_group == c.lg);
	ok.add(r.language == c.l);
	ok.add(r.timecode_status == c.ts);
	if (descriptions) {
		ok.add(meta(m, "Display standard", t.display_standard_enum_to_description(c.ds)));
		ok.add(meta(m, "Language group", t.language_group_enum_to_description(c.lg)));
		ok.add(meta(m, "Language", t.language_enum_to_description(c.l)));
		ok.add(meta(m, "Timecode status", t.timecode_status_enum_to_description(c.ts)));
	}
	return ok.v;
}
static Codes const plain = {DISPLAY_STANDARD_OPEN_SUBTITLING, LANGUAGE_GROUP_LATIN, LANGUAGE_ENGLISH, TIMECODE_STATUS_INTENDED_FOR_USE};

extern "C" void vp_harness ()
{
	std::string f = head();
	switch (vp_case()) {
	case 0: {
		for (int i = 0; i < ntext; ++i) for (int j = 0; j < text_fields[i].n; ++j) f[text_fields[i].at + j] = (char) vp_byte("byte");
		std::istringstream s (f);
		STLBinaryReader r (s);
		check(r, f);
		vp_assert(codes(r, plain), "a coded field is wrong");
		vp_assert(r.frame_rate == 25, "the frame rate is wrong");
		vp_cover("end");
		break;
	}
	case 1: {
		int i = vp_choice("number", nnum - 1);
		Number const& n = numbers[i];
		int top = 1;
		for (int j = 0; j < n.n; ++j) top *= 10;
		int blocks = top <= 250 ? 1 : top / 250, b = vp_choice("block", blocks);
		int lo = b * 250, hi = top <= 250 ? top - 1 : lo + 249;
		// as many digits as the number has
		std::string text;
		ll v;
		int low = lo, high = hi;
		int w = vp_choice("digits", n.n);
		int floor = w == 0 ? 0 : 1;
		for (int j = 0; j < w; ++j) floor *= 10;
		int ceil = w == 0 ? 9 : floor * 10 - 1;
		low = std::max(lo, floor); high = std::min(hi, ceil);
		if (low > high) vp_stop();
		v = vp_range("value", low, high);
		text = digits(v, w + 1);
		f.replace(n.at, n.n, digits(v, n.n));
		if (n.at == 253) vp_assume(v != 99);
		std::istringstream s (f);
		STLBinaryReader r (s);
		check(r, f, i, text);
		vp_cover("end");
		break;
	}
	case 2: {
		f[14] = (char) vp_byte("byte");
		f[15] = (char) vp_byte("byte");
		std::istringstream s (f);
		try {
			STLBinaryReader r (s);
			STLBinaryTables t;
			Codes c = plain;
			std::string code = t.language_enum_to_file(r.language);
			vp_assert(vp_str_eq(code, f.substr(14, 2)), "a language code gives the wrong language");
			c.l = r.language;
			vp_assert(codes(r, c), "a coded field is wrong");
			check(r, f);
			vp_cover("known");
		} catch (STLError&) {
			int a = (unsigned char) f[14], b = (unsigned char) f[15];
			#define DIGIT(x) (((x) >= '0') & ((x) <= '9'))
			#define HEX(x) (DIGIT(x) | (((x) >= 'A') & ((x) <= 'F')))
			int known = (((a >= '0') & (a <= '1')) & HEX(b)) | ((a == '2') & (DIGIT(b) | (b == 'A') | (b == 'B'))) | ((a >= '5') & (a <= '7') & HEX(b)) | ((a == '4') & HEX(b) & (b >= '5'));
			vp_assert(!known, "a language code is refused");
			vp_cover("refused");
		}
		break;
	}
	case 3: {
		static int const at[6] = {11, 12, 13, 255, 6, 10};
		int which = vp_choice("byte", 6);
		int c = vp_byte("value");
		f[at[which]] = (char) c;
		bool refused = false;
		Codes w = plain;
		int known = 1;
		std::istringstream s (f);
		try {
			STLBinaryReader r (s);
			c = (int) vp_concretize(c);
			switch (which) {
			case 0: known = c == ' ' || (c >= '0' && c <= '2'); w.ds = c == ' ' ? DISPLAY_STANDARD_UNDEFINED : c == '0' ? DISPLAY_STANDARD_OPEN_SUBTITLING : c == '1' ? DISPLAY_STANDARD_LEVEL_1_TELETEXT : DISPLAY_STANDARD_LEVEL_2_TELETEXT; break;
			case 1: known = c == '0'; break;
			case 2: known = c >= '0' && c <= '4'; w.lg = c == '1' ? LANGUAGE_GROUP_LATIN_CYRILLIC : c == '2' ? LANGUAGE_GROUP_LATIN_ARABIC : c == '3' ? LANGUAGE_GROUP_LATIN_GREEK : c == '4' ? LANGUAGE_GROUP_LATIN_HEBREW : LANGUAGE_GROUP_LATIN; break;
			case 3: known = c == '0' || c == '1'; w.ts = c == '0' ? TIMECODE_STATUS_NOT_INTENDED_FOR_USE : TIMECODE_STATUS_INTENDED_FOR_USE; break;
			case 4: case 5: known = c == (which == 4 ? '2' : '1'); break;
			}
			vp_assert(known, "an unknown code is accepted");
			if (known) {
				vp_assert(codes(r, w), "a coded field is wrong");
				vp_assert(r.frame_rate == 25, "the frame rate is wrong");
				check(r, f);
			}
			vp_cover("known");
		} catch (STLError&) {
			refused = true;
		}
		if (refused) {
			switch (which) {
			case 0: known = (c == ' ') | ((c >= '0') & (c <= '2')); break;
			case 1: known = c == '0'; break;
			case 2: known = (c >= '0') & (c <= '4'); break;
			case 3: known = (c == '0') | (c == '1'); break;
			case 4: case 5: known = c == (which == 4 ? '2' : '1'); break;
			}
			vp_assert(!known, "a known code is refused");
			vp_cover("refused");
		}
		break;
	}
	case 4: {
		static char const* dfc[3] = {"STL24.01", "STL25.01", "STL30.01"};
		static int const rate[3] = {24, 25, 30};
		int d = vp_choice("rate", 3), blocks = vp_choice("blocks", 2);
		f.replace(3, 8, dfc[d]);
		f.replace(238, 5, digits(blocks, 5));
		for (int i = 373; i < 1024; ++i) f[i] = (char) vp_byte("byte");
		Tti t;
		t.text = "abc";
		std::istringstream s (f + t.bytes());
		STLBinaryReader r (s);
		check(r, f);
		vp_assert(codes(r, plain), "a coded field is wrong");
		vp_assert(r.frame_rate == rate[d], "the frame rate is wrong");
		vp_assert((int) r.subtitles().size() == blocks, "the number of subtitles is wrong");
		vp_cover("end");
		break;
	}
	case 5: {
		// a count may be wrong in one digit only, so that every digit has to be looked at
		int n = vp_choice("blocks", 13), count = vp_choice("count", 13), place = vp_choice("digit", 5);
		static int const power[5] = {0, 10000, 1000, 100, 10};
		if (place) count += power[place] * (int) vp_concretize(vp_range("digit's value", 1, 9));
		f.replace(238, 5, digits(count, 5));
		Tti t;
		t.text = "abc";
		std::string g = f;
		for (int i = 0; i < n; ++i) g += t.bytes();
		std::istringstream s (g);
		try {
			STLBinaryReader r (s);
			vp_assert(count <= n, "a file with too few blocks is accepted");
			check(r, f);
			vp_assert((int) r.subtitles().size() == count, "the number of subtitles is wrong");
			vp_cover("read");
		} catch (STLError&) {
			vp_assert(count > n, "a file with enough blocks is refused");
			vp_cover("refused");
		}
		break;
	}
	}
}
