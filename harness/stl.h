// EBU STL (Tech 3264) files, built from the specification
#ifndef STL_H
#define STL_H
#include "common.h"
static std::string stl_gsi (int blocks, char const* dfc = "STL25.01", std::string mnr = "23")
{
	std::string f (1024, ' ');
	f.replace(0, 3, "850");
	f.replace(3, 8, dfc);
	f.replace(11, 1, "0"); f.replace(12, 2, "00"); f.replace(14, 2, "09");
	f.replace(208, 16, "REF0000000000000");
	f.replace(224, 12, "010203040506");
	f.replace(236, 2, "01");
	f.replace(238, 5, digits(blocks, 5)); f.replace(243, 5, digits(blocks, 5)); f.replace(248, 3, "001"); f.replace(251, 2, "40"); f.replace(253, 2, mnr);
	f.replace(255, 1, "1"); f.replace(256, 8, "00000000"); f.replace(264, 8, "00000000"); f.replace(272, 1, "1"); f.replace(273, 1, "1"); f.replace(274, 3, "GBR");
	return f;
}
struct Tti {
	int sgn, sn, ebn, cs;
	int from[4], to[4];
	int vp, jc, cf;
	std::string text;
	Tti () : sgn(0), sn(0), ebn(0xff), cs(0), vp(20), jc(2), cf(0) { for (int i = 0; i < 4; ++i) { from[i] = i; to[i] = i + 4; } }
	std::string bytes () const {
		std::string t (128, '\x8f');
		t[0] = (char) sgn; t[1] = (char) sn; t[2] = (char) (sn >> 8); t[3] = (char) ebn; t[4] = (char) cs;
		for (int i = 0; i < 4; ++i) { t[5 + i] = (char) from[i]; t[9 + i] = (char) to[i]; }
		t[13] = (char) vp; t[14] = (char) jc; t[15] = (char) cf;
		for (size_t i = 0; i < text.size() && i < 112; ++i) t[16 + i] = text[i];
		return t;
	}
};
#endif
