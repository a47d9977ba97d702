//@ case 0 any extension :: every extension of 0..4 bytes (5 in the thorough tier), with a SubRip file behind it [quick=150]
//@ case 1 stl extensions in any case, the head any :: 8 spellings, each of the 11 first bytes any in turn, bytes 3-5 any, or "STL" at each other place of them [quick=100]
//@ case 2 short stl files :: 0..12 bytes, bytes 3-5 "STL" or any [quick=60]
//@ case 3 what is read :: SubRip, STL text and EBU STL files of 1..4 subtitles with a text byte of the first or last any [quick=100]
//@ case 4 names :: 11 names with several dots, directories and no extension [quick=60]
//@ cover 0: srt, null
//@ cover 1: binary, text
//@ cover 2: end
//@ cover 3: end
//@ cover 4: reader, null
//@ assume file names are plain names of the current directory without NUL; documents have no NUL bytes
#include "stl.h"
#include "reader_factory.h"
#include "subrip_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "exceptions.h"
#include <memory>
using namespace sub;

static std::shared_ptr<Reader> open (std::string const& name, bool& refused)
{
	refused = false;
	try { return reader_factory(boost::filesystem::path(name)); } catch (std::exception&) { refused = true; }
	return std::shared_ptr<Reader>();
}

static int kind (std::shared_ptr<Reader> const& r)
{
	if (!r) return 0;
	if (dynamic_cast<SubripReader*>(r.get())) return 1;
	if (dynamic_cast<STLTextReader*>(r.get())) return 2;
	if (dynamic_cast<STLBinaryReader*>(r.get())) return 3;
	return 4;
}

static void same (std::vector<RawSubtitle> const& a, std::vector<RawSubtitle> const& b)
{
	vp_assert(a.size() == b.size(), "the reader has other subtitles than one constructed directly");
	if (a.size() != b.size()) vp_stop();
	All ok;
	for (size_t i = 0; i < a.size(); ++i) {
		ok.add(vp_str_eq(a[i].text, b[i].text));
		ok.add((a[i].italic == b[i].italic) & (a[i].bold == b[i].bold) & (a[i].underline == b[i].underline));
		ok.add(a[i].from == b[i].from);
		ok.add(a[i].to == b[i].to);
		ok.add(a[i].vertical_position.line == b[i].vertical_position.line);
		vp_observe_str(a[i].text);
	}
	vp_assert(ok.v, "the reader has other subtitles than one constructed directly");
}

static std::string const SRT = "1\n00:00:01,000 --> 00:00:02,000\nfirst\n\n2\n00:00:03,000 --> 00:00:04,000\n<i>second</i>\n";


extern "C" void vp_harness ()
{
	bool refused;
	switch (vp_case()) {
	case 0: {
		int n = vp_choice("length", vp_tier() ? 6 : 5);
		std::string name = "vp_doc.";
		int srt = n == 3, stl = n == 3;
		for (int i = 0; i < n; ++i) {
			int c = vp_byte("byte");
			vp_assume((c != 0) & (c != '/') & (c != '.'));
			if (n == 3) {
				srt = BOTH(srt, (c == "srt"[i]) | (c == "SRT"[i]));
				stl = BOTH(stl, (c == "stl"[i]) | (c == "STL"[i]));
			}
			name += (char) c;
		}
		vp_vfs_put(name.c_str(), SRT.data(), SRT.size());
		std::shared_ptr<Reader> r = open(name, refused);
		vp_assert(!refused, "a file is refused");
		if (refused) vp_stop();
		int k = kind(r);
		vp_assert(srt == (k == 1), "a SubRip extension is not given the SubRip reader, or another is");
		vp_assert(stl == (k == 2), "an STL extension is not given the STL text reader, or another is");
		vp_assert(EITHER(srt, stl) == (k != 0), "another extension is given a reader, or a known one none");
		if (k == 1) same(r->subtitles(), SubripReader(SRT).subtitles());
		vp_observe(k);
		vp_cover(k == 1 ? "srt" : k == 0 ? "null" : "stl");
		break;
	}
	case 1: {
		static char const* const spelling[8] = {"stl", "STL", "Stl", "sTl", "stL", "STl", "sTL", "StL"};
		std::string name = std::string("vp_doc.") + spelling[vp_choice("spelling", 8)];
		Tti t;
		t.text = "first";
		std::string f = stl_gsi(1) + t.bytes();
		int at = vp_choice("byte", 13);
		if (at == 12) {
			// the letters elsewhere
			for (int i = 3; i < 11; ++i) f[i] = '5';
			f.replace(vp_choice("place", 9), 3, "STL");
			f[11] = (char) vp_byte("byte");
		} else if (at == 11) for (int i = 3; i < 6; ++i) f[i] = (char) vp_byte("byte");
		else f[at] = (char) vp_byte("byte");
		vp_vfs_put(name.c_str(), f.data(), f.size());
		std::shared_ptr<Reader> r = open(name, refused);
		int stl = (f[3] == 'S') & (f[4] == 'T') & (f[5] == 'L');
		int k = kind(r);
		// an unknown disk format is refused by the binary reader
		int good = vp_mem_eq(f.data() + 3, "STL25.01", 8) | vp_mem_eq(f.data() + 3, "STL24.01", 8) | vp_mem_eq(f.data() + 3, "STL23.01", 8) | vp_mem_eq(f.data() + 3, "STL30.01", 8);
		vp_assert(stl == (k == 3 || refused), "an EBU file is not given the binary reader, or another file is");
		vp_assert(vp_ite(stl, good, 1) == !refused, "an EBU file is refused");
		vp_assert(!stl == (k == 2), "a file that is not EBU STL is not given the text reader");
		if (k == 3) {
			std::istringstream s (f);
			same(r->subtitles(), STLBinaryReader(s).subtitles());
		}
		vp_observe(k);
		vp_cover(k == 3 ? "binary" : "text");
		break;
	}
	case 2: {
		int n = vp_choice("length", 13), any = vp_choice("any", 2);
		std::string f = std::string("850STL25.01x").substr(0, n);
		if (any) for (int i = 3; i < 6 && i < n; ++i) f[i] = (char) vp_byte("byte");
		vp_vfs_put("vp_doc.stl", f.data(), f.size());
		std::shared_ptr<Reader> r = open("vp_doc.stl", refused);
		int k = kind(r);
		int stl = n >= 11 ? (f[3] == 'S') & (f[4] == 'T') & (f[5] == 'L') : 0;
		vp_assert(stl == refused, "a short file is refused, or a truncated EBU file is not");
		vp_assert(!stl == (k == 2), "a short file is not given the text reader");
		if (k == 2) vp_assert(r->subtitles().empty(), "a short file has subtitles");
		vp_cover("end");
		break;
	}
	case 3: {
		int which = vp_choice("format", 3), n = 1 + vp_choice("subtitles", 4);
		int at = n > 1 && vp_choice("at", 2) ? n - 1 : 0;
		std::string f = which == 2 ? stl_gsi(n) : "";
		for (int i = 0; i < n; ++i) {
			std::string t = std::string("t") + (char) ('a' + i);
			char c = i == at ? (char) vp_byte("byte") : 'z';
			vp_assume((c != 0) & (c != '\n'));
			t += c;
			t += "e";
			if (which == 0) f += digits(i + 1, 1) + "\n00:00:0" + digits(i, 1) + ",000 --> 00:00:0" + digits(i, 1) + ",500\n" + t + "\n\n";
			else if (which == 1) f += "00:00:0" + digits(i, 1) + ":00 , 00:00:0" + digits(i, 1) + ":12 , " + t + "\n";
			else { Tti x; x.from[2] = x.to[2] = i; x.text = t; f += x.bytes(); }
		}
		std::string name = which == 0 ? "vp_doc.srt" : "vp_doc.Stl";
		vp_vfs_put(name.c_str(), f.data(), f.size());
		std::shared_ptr<Reader> r = open(name, refused);
		std::vector<RawSubtitle> want;
		bool bad = false;
		try {
			std::istringstream s (f);
			if (which == 0) want = SubripReader(f).subtitles();
			else if (which == 1) want = STLTextReader(s).subtitles();
			else want = STLBinaryReader(s).subtitles();
		} catch (std::exception&) { bad = true; }
		vp_assert(bad == refused, "a file is refused, or accepted when constructing the reader directly refuses it");
		if (bad || refused) vp_stop();
		vp_assert(kind(r) == which + 1, "a file is given the wrong reader");
		if (!r) vp_stop();
		same(r->subtitles(), want);
		vp_cover("end");
		break;
	}
	case 4: {
		static char const* const names[12] = {"vp.srt.txt", "vp.txt.srt", "vp.stl.srt", "vp", "srt", "vp.srt ", "vp.ssa", "vp.vtt", "vp.", ".srt", "vp.srt.", "vp.a.SRT"};
		static int const want[12] = {0, 1, 1, 0, 0, 0, 0, 0, 0, 0, 0, 1};
		int i = vp_choice("name", 12);
		vp_vfs_put(names[i], SRT.data(), SRT.size());
		// a name that starts with its only dot has that name as its extension in some versions of boost and none in others
		if (i == 9) vp_stop();
		std::shared_ptr<Reader> r = open(names[i], refused);
		vp_assert(!refused && kind(r) == want[i], "a name is given the wrong reader");
		if (r) same(r->subtitles(), SubripReader(SRT).subtitles());
		vp_cover(r ? "reader" : "null");
		break;
	}
	}
}
