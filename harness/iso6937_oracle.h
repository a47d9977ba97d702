// ISO/IEC 6937 (ITU-T T.51) as used by EBU Tech 3264; written from the standard and Unicode composition, not from the code
#ifndef ISO6937_ORACLE_H
#define ISO6937_ORACLE_H
#include <string>
namespace iso_oracle {
static wchar_t const single[256] = {
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x000a, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0020, 0x0021, 0x0022, 0x0023, 0x0024, 0x0025, 0x0026, 0x0027, 0x0028, 0x0029, 0x002a, 0x002b, 0x002c, 0x002d, 0x002e, 0x002f,
	0x0030, 0x0031, 0x0032, 0x0033, 0x0034, 0x0035, 0x0036, 0x0037, 0x0038, 0x0039, 0x003a, 0x003b, 0x003c, 0x003d, 0x003e, 0x003f,
	0x0040, 0x0041, 0x0042, 0x0043, 0x0044, 0x0045, 0x0046, 0x0047, 0x0048, 0x0049, 0x004a, 0x004b, 0x004c, 0x004d, 0x004e, 0x004f,
	0x0050, 0x0051, 0x0052, 0x0053, 0x0054, 0x0055, 0x0056, 0x0057, 0x0058, 0x0059, 0x005a, 0x005b, 0x005c, 0x005d, 0x005e, 0x005f,
	0x0060, 0x0061, 0x0062, 0x0063, 0x0064, 0x0065, 0x0066, 0x0067, 0x0068, 0x0069, 0x006a, 0x006b, 0x006c, 0x006d, 0x006e, 0x006f,
	0x0070, 0x0071, 0x0072, 0x0073, 0x0074, 0x0075, 0x0076, 0x0077, 0x0078, 0x0079, 0x007a, 0x007b, 0x007c, 0x007d, 0x007e, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x0000, 0x00a1, 0x00a2, 0x00a3, 0x0024, 0x00a5, 0x0000, 0x00a7, 0x00a4, 0x2018, 0x201c, 0x00ab, 0x2190, 0x2191, 0x2192, 0x2193,
	0x00b0, 0x00b1, 0x00b2, 0x00b3, 0x00d7, 0x00b5, 0x00b6, 0x00b7, 0x00f7, 0x2019, 0x201d, 0x00bb, 0x00bc, 0x00bd, 0x00be, 0x00bf,
	0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000, 0x0000,
	0x2015, 0x00b9, 0x00ae, 0x00a9, 0x2122, 0x266a, 0x00ac, 0x00a6, 0x0000, 0x0000, 0x0000, 0x0000, 0x215b, 0x215c, 0x215d, 0x215e,
	0x2126, 0x00c6, 0x0110, 0x00aa, 0x0126, 0x0000, 0x0132, 0x013f, 0x0141, 0x00d8, 0x0152, 0x00ba, 0x00de, 0x0166, 0x014a, 0x0149,
	0x0138, 0x00e6, 0x0111, 0x00f0, 0x0127, 0x0131, 0x0133, 0x0140, 0x0142, 0x00f8, 0x0153, 0x00df, 0x00fe, 0x0167, 0x014b, 0x00ad,
};
struct Pair { unsigned char d, c; wchar_t w; };
static Pair const pairs[] = {
	{0xc1,'A',0x00c0}, {0xc1,'E',0x00c8}, {0xc1,'I',0x00cc}, {0xc1,'O',0x00d2}, {0xc1,'U',0x00d9}, {0xc1,'a',0x00e0}, {0xc1,'e',0x00e8}, {0xc1,'i',0x00ec},
	{0xc1,'o',0x00f2}, {0xc1,'u',0x00f9}, {0xc2,'A',0x00c1}, {0xc2,'C',0x0106}, {0xc2,'E',0x00c9}, {0xc2,'I',0x00cd}, {0xc2,'L',0x0139}, {0xc2,'N',0x0143},
	{0xc2,'O',0x00d3}, {0xc2,'R',0x0154}, {0xc2,'S',0x015a}, {0xc2,'U',0x00da}, {0xc2,'Y',0x00dd}, {0xc2,'Z',0x0179}, {0xc2,'a',0x00e1}, {0xc2,'c',0x0107},
	{0xc2,'e',0x00e9}, {0xc2,'i',0x00ed}, {0xc2,'l',0x013a}, {0xc2,'n',0x0144}, {0xc2,'o',0x00f3}, {0xc2,'r',0x0155}, {0xc2,'s',0x015b}, {0xc2,'u',0x00fa},
	{0xc2,'y',0x00fd}, {0xc2,'z',0x017a}, {0xc3,'A',0x00c2}, {0xc3,'C',0x0108}, {0xc3,'E',0x00ca}, {0xc3,'G',0x011c}, {0xc3,'H',0x0124}, {0xc3,'I',0x00ce},
	{0xc3,'J',0x0134}, {0xc3,'O',0x00d4}, {0xc3,'S',0x015c}, {0xc3,'U',0x00db}, {0xc3,'W',0x0174}, {0xc3,'Y',0x0176}, {0xc3,'a',0x00e2}, {0xc3,'c',0x0109},
	{0xc3,'e',0x00ea}, {0xc3,'g',0x011d}, {0xc3,'h',0x0125}, {0xc3,'i',0x00ee}, {0xc3,'j',0x0135}, {0xc3,'o',0x00f4}, {0xc3,'s',0x015d}, {0xc3,'u',0x00fb},
	{0xc3,'w',0x0175}, {0xc3,'y',0x0177}, {0xc4,'A',0x00c3}, {0xc4,'I',0x0128}, {0xc4,'N',0x00d1}, {0xc4,'O',0x00d5}, {0xc4,'U',0x0168}, {0xc4,'a',0x00e3},
	{0xc4,'i',0x0129}, {0xc4,'n',0x00f1}, {0xc4,'o',0x00f5}, {0xc4,'u',0x0169}, {0xc5,'A',0x0100}, {0xc5,'E',0x0112}, {0xc5,'I',0x012a}, {0xc5,'O',0x014c},
	{0xc5,'U',0x016a}, {0xc5,'a',0x0101}, {0xc5,'e',0x0113}, {0xc5,'i',0x012b}, {0xc5,'o',0x014d}, {0xc5,'u',0x016b}, {0xc6,'A',0x0102}, {0xc6,'G',0x011e},
	{0xc6,'U',0x016c}, {0xc6,'a',0x0103}, {0xc6,'g',0x011f}, {0xc6,'u',0x016d}, {0xc7,'C',0x010a}, {0xc7,'E',0x0116}, {0xc7,'G',0x0120}, {0xc7,'I',0x0130},
	{0xc7,'Z',0x017b}, {0xc7,'c',0x010b}, {0xc7,'e',0x0117}, {0xc7,'g',0x0121}, {0xc7,'z',0x017c}, {0xc8,'A',0x00c4}, {0xc8,'E',0x00cb}, {0xc8,'I',0x00cf},
	{0xc8,'O',0x00d6}, {0xc8,'U',0x00dc}, {0xc8,'Y',0x0178}, {0xc8,'a',0x00e4}, {0xc8,'e',0x00eb}, {0xc8,'i',0x00ef}, {0xc8,'o',0x00f6}, {0xc8,'u',0x00fc},
	{0xc8,'y',0x00ff}, {0xca,'A',0x00c5}, {0xca,'U',0x016e}, {0xca,'a',0x00e5}, {0xca,'u',0x016f}, {0xcb,'C',0x00c7}, {0xcb,'G',0x0122}, {0xcb,'K',0x0136},
	{0xcb,'L',0x013b}, {0xcb,'N',0x0145}, {0xcb,'R',0x0156}, {0xcb,'S',0x015e}, {0xcb,'T',0x0162}, {0xcb,'c',0x00e7}, {0xcb,'k',0x0137}, {0xcb,'l',0x013c},
	{0xcb,'n',0x0146}, {0xcb,'r',0x0157}, {0xcb,'s',0x015f}, {0xcb,'t',0x0163}, {0xcd,'O',0x0150}, {0xcd,'U',0x0170}, {0xcd,'o',0x0151}, {0xcd,'u',0x0171},
	{0xce,'A',0x0104}, {0xce,'E',0x0118}, {0xce,'I',0x012e}, {0xce,'U',0x0172}, {0xce,'a',0x0105}, {0xce,'e',0x0119}, {0xce,'i',0x012f}, {0xce,'u',0x0173},
	{0xcf,'C',0x010c}, {0xcf,'D',0x010e}, {0xcf,'E',0x011a}, {0xcf,'L',0x013d}, {0xcf,'N',0x0147}, {0xcf,'R',0x0158}, {0xcf,'S',0x0160}, {0xcf,'T',0x0164},
	{0xcf,'Z',0x017d}, {0xcf,'c',0x010d}, {0xcf,'d',0x010f}, {0xcf,'e',0x011b}, {0xcf,'l',0x013e}, {0xcf,'n',0x0148}, {0xcf,'r',0x0159}, {0xcf,'s',0x0161},
	{0xcf,'t',0x0165}, {0xcf,'z',0x017e}, {0xc2,'g',0x01f5},
};
static int const npairs = sizeof(pairs) / sizeof(pairs[0]);

// each byte must be concrete on the path
static inline std::wstring decode (std::string const& s)
{
	std::wstring o;
	int d = -1;
	for (size_t i = 0; i < s.size() && s[i]; ++i) {
		int b = (unsigned char) s[i];
		if (b >= 0xc1 && b <= 0xcf) d = b;
		else if (d >= 0) {
			for (int j = 0; j < npairs; ++j) if (pairs[j].d == d && pairs[j].c == b) o += pairs[j].w;
			d = -1;
		} else if (single[b]) o += single[b];
	}
	return o;
}
}
#endif
