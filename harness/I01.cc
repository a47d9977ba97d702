//@ src iso6937.cc iso6937_tables.cc
//@ case 0 decoding, any byte in context :: 10 preceding and 8 following strings (plain, diacriticals known and unknown, unassigned, NUL) around any byte [quick=100]
//@ case 1 decoding, any two bytes after a diacritical position :: first byte C0h-CFh, second byte any, third from 7 [quick=100]
//@ case 2 encoding, any character in context :: any of the 65536 two-byte characters between 5 preceding and 5 following characters [quick=150]
//@ case 3 independence of earlier conversions :: any two bytes decoded (first C0h-CFh or from 6 others), then 5 probes decoded and encoded [quick=100]
//@ case 4 encoding and decoding a string of representable characters :: three characters, each any of the repertoire in its own run of the list [quick=100]
//@ case 5 decoding, any three bytes [thorough-only] :: every string of three bytes [thorough=1500]
//@ case 6 encoding strings of substituted, unrepresentable and other characters :: three characters, each any of 14, the same one repeated included, between 2 before and 2 after [quick=100]
//@ cover 0: end
//@ cover 1: pair, dropped
//@ cover 2: kept, dropped, substitute
//@ cover 3: end
//@ cover 4: end
//@ cover 6: end
//@ assume the diacritical pair C2h 'g' is U+01F5 (tables of ISO 6937 differ); A0h, and diacriticals over space, are unassigned here
#include "common.h"
#include "iso6937.h"
#include "iso6937_oracle.h"
using namespace sub;

static void check_decode (std::string s, char const* what)
{
	std::wstring w = iso6937_to_utf16(s);
	// the conversion has branched on every byte, or does not depend on it
	for (size_t i = 0; i < s.size(); ++i) s[i] = (char) vp_concretize((unsigned char) s[i]);
	std::wstring want = iso_oracle::decode(s);
	vp_assert(w == want, what);
	vp_observe(w.size());
	for (size_t i = 0; i < w.size(); ++i) vp_observe(w[i]);
}

static bool representable (wchar_t w)
{
	if (!w) return false;
	for (int i = 0; i < 256; ++i) if (iso_oracle::single[i] == w) return true;
	for (int i = 0; i < iso_oracle::npairs; ++i) if (iso_oracle::pairs[i].w == w) return true;
	return false;
}

static wchar_t substitute (wchar_t w)
{
	switch (w) {
	case 0x201e: return 0x201c;
	case 0x2013: case 0x2014: return 0x2015;
	case 0x2010: case 0x2011: case 0x2012: return '-';
	case 0x2032: return '\'';
	}
	return 0;
}

extern "C" void vp_harness ()
{
	switch (vp_case()) {
	case 0: {
		static char const* const pre[10] = {"", "A", "\xe9", "\xc2", "\xc9", "\xd9", "\xc1\xc8", "\xcfs", "\x8a", "xy\xc3"};
		static char const* const post[8] = {"", "e", "\xff", "\xc8u", "\xc0", "\xcc" "A", "\xc2", "n\xcd"};
		std::string s = pre[vp_choice("before", 10)];
		s += (char) vp_byte("byte");
		s += post[vp_choice("after", 8)];
		check_decode(s, "a byte is not decoded as ISO 6937 assigns it");
		vp_cover("end");
		break;
	}
	case 1: {
		static char const* const post[7] = {"", "e", "\xff", "\xc8", "\xc9", "\x9f", "\xc2g"};
		std::string s;
		s += (char) (0xc0 + vp_choice("first", 16));
		s += (char) vp_byte("second");
		s += post[vp_choice("after", 7)];
		check_decode(s, "a diacritical pair is not decoded as ISO 6937 assigns it");
		if (iso_oracle::decode(s.substr(0, 2)).empty()) vp_cover("dropped");
		else vp_cover("pair");
		break;
	}
	case 2: {
		static wchar_t const around[5] = {0, 'a', 0x00e9, 0x2019, 0x3042};
		wchar_t a = around[vp_choice("before", 5)], b = around[vp_choice("after", 5)];
		wchar_t c = (wchar_t) vp_range("character", 1, 0xffff);
		std::wstring w, want;
		if (a) w += a;
		w += c;
		if (b) w += b;
		std::string s = utf16_to_iso6937(w);
		std::string alone = utf16_to_iso6937(std::wstring(1, c));
		// the conversion has compared the character with every representable one and the substituted ones
		bool dropped = alone.empty();
		if (dropped) {
			All none;
			for (int i = 0; i < 256; ++i) if (iso_oracle::single[i]) none.add(c != iso_oracle::single[i]);
			for (int i = 0; i < iso_oracle::npairs; ++i) none.add(c != iso_oracle::pairs[i].w);
			vp_assert(none.v, "a representable character is dropped");
			static wchar_t const subst[7] = {0x201e, 0x2013, 0x2014, 0x2010, 0x2011, 0x2012, 0x2032};
			All sub;
			for (int i = 0; i < 7; ++i) sub.add(c != subst[i]);
			vp_assert(sub.v, "a character with a substitute is dropped");
			c = 0;
		} else c = (wchar_t) vp_concretize(c);
		wchar_t got = dropped ? 0 : representable(c) ? c : substitute(c);
		if (a && a != 0x3042) want += a;
		if (got) want += got;
		if (b && b != 0x3042) want += b;
		vp_assert(iso_oracle::decode(s) == want, "encoding does not give bytes that stand for the characters");
		vp_assert(iso6937_to_utf16(s) == want, "encoding and decoding does not give the characters back");
		if (c < 128 && got && c != '$') vp_assert(alone.size() == 1 && alone[0] == (char) c, "an ASCII character is not encoded as itself");
		vp_observe_str(s);
		vp_cover(!got ? "dropped" : got == c ? "kept" : "substitute");
		break;
	}
	case 3: {
		static unsigned char const others[6] = {'A', 0x80, 0xa0, 0xd8, 0xe5, 0xff};
		static char const* const probe[5] = {"A\xc1" "a\xe1", "\xc9" "a\xc8" "ab", "\xc2\xe5" "e\xc2" "e", "\xd8\xe5\xa0~\xa4", "\xcc\xc0\xcf" "c\xcfz"};
		std::string s;
		int k = vp_choice("first", 22);
		s += (char) (k < 16 ? 0xc0 + k : others[k - 16]);
		s += (char) vp_byte("second");
		iso6937_to_utf16(s);
		for (int i = 0; i < 5; ++i) {
			std::wstring w = iso6937_to_utf16(probe[i]), want = iso_oracle::decode(probe[i]);
			vp_assert(w == want, "a conversion depends on an earlier one");
			vp_assert(iso6937_to_utf16(utf16_to_iso6937(w)) == want, "encoding depends on an earlier conversion");
		}
		static wchar_t const unrep[4] = {0x3042, 0x0410, 0x0001, 0x0080};
		for (int i = 0; i < 4; ++i) vp_assert(utf16_to_iso6937(std::wstring(1, unrep[i])).empty(), "an unrepresentable character is encoded after an earlier conversion");
		vp_cover("end");
		break;
	}
	case 4: {
		static wchar_t all[512];
		int n = 0;
		for (int i = 1; i < 256; ++i) if (iso_oracle::single[i]) all[n++] = iso_oracle::single[i];
		for (int i = 0; i < iso_oracle::npairs; ++i) all[n++] = iso_oracle::pairs[i].w;
		int k = vp_choice("character", n), step = 1 + vp_choice("step", vp_tier() ? 40 : 8) * 7;
		std::wstring w;
		for (int i = 0; i < 3; ++i) w += all[(k + i * step) % n];
		std::string s = utf16_to_iso6937(w);
		vp_assert(iso_oracle::decode(s) == w, "encoding does not give bytes that stand for the characters");
		vp_assert(iso6937_to_utf16(s) == w, "encoding and decoding does not give the characters back");
		std::string parts;
		for (int i = 0; i < 3; ++i) parts += utf16_to_iso6937(std::wstring(1, w[i]));
		vp_assert(parts == s, "encoding a string is not encoding its characters");
		vp_cover("end");
		break;
	}
	case 6: {
		static wchar_t const from[15] = {0x201e, 0x2013, 0x2014, 0x2010, 0x2011, 0x2012, 0x2032, 'a', '-', '\'', 0x201c, 0x2015, 0x00e9, 0x3042, 0x2033};
		std::wstring w, want;
		if (vp_choice("before", 2)) { w += 'x'; w += 0x2013; }
		for (int i = 0; i < 3; ++i) w += from[vp_choice("character", 15)];
		if (vp_choice("after", 2)) w += 0x2032;
		for (size_t i = 0; i < w.size(); ++i) {
			wchar_t x = representable(w[i]) ? w[i] : substitute(w[i]);
			if (x) want += x;
		}
		std::string s = utf16_to_iso6937(w);
		vp_assert(iso_oracle::decode(s) == want, "encoding does not give bytes that stand for the characters");
		vp_assert(iso6937_to_utf16(s) == want, "encoding and decoding does not give the characters back");
		vp_cover("end");
		break;
	}
	case 5: {
		std::string s (3, ' ');
		for (int i = 0; i < 3; ++i) s[i] = (char) vp_byte("byte");
		check_decode(s, "a byte string is not decoded as ISO 6937 assigns it");
		break;
	}
	}
}
