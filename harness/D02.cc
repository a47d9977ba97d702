//@ case 0 SubRip files :: 0..3 subtitles, nothing at all, of 1..2 lines, italic or not, two bytes of a text any, names of 4 spellings, after "--" or not [quick=60]
//@ case 1 STL text and EBU STL files :: 1..3 subtitles with two bytes of a text any (printable for EBU) [quick=60]
//@ case 2 command lines :: 0..3 arguments of 9 kinds: files, missing files, files of other types, directories' names, options [quick=60]
//@ case 3 files that do not parse :: 6 kinds of error in SubRip and STL files after good subtitles, one byte any letter [quick=60]
//@ case 4 file types :: every extension of 3 bytes [quick=60]
//@ cover 0: end
//@ cover 1: end
//@ cover 2: printed, help, failed
//@ cover 3: end
//@ cover 4: printed, failed
//@ assume texts have no NUL, line ends, markup or UTF-8 line separators; whether the file exists is asked of boost::filesystem by exists(), is_regular_file(), is_directory(), file_size() or is_empty()
#include "stl.h"
#include "reader_factory.h"
#include "reader.h"
#include "collect.h"
#include "util.h"
#include "exceptions.h"
#include <getopt.h>
#include <boost/filesystem.hpp>
#include <map>
#include <memory>
#include <iostream>
#include <sstream>
#include <cstdlib>

// the program itself, with its output kept, its exit caught and the virtual files
struct Exit { int status; };
static void vp_exit (int s) { Exit e = {s}; throw e; }
namespace std { static ostringstream vp_cout, vp_cerr; using ::vp_exit; }
namespace boost { namespace filesystem {
static bool vp_exists (path const& p) { return vp_vfs_size(p.string().c_str()) >= 0; }
static bool vp_regular (path const& p) { return vp_exists(p); }
static bool vp_directory (path const&) { return false; }
static uintmax_t vp_file_size (path const& p) { return vp_exists(p) ? (uintmax_t) vp_vfs_size(p.string().c_str()) : (uintmax_t) -1; }
static bool vp_empty_file (path const& p) { return vp_file_size(p) == 0; }
} }
#define exit vp_exit
#define cout vp_cout
#define cerr vp_cerr
#define exists vp_exists
#define is_regular_file vp_regular
#define is_directory vp_directory
#define file_size vp_file_size
#define is_empty vp_empty_file
#define main dumpsubs_main
#include "tools/dumpsubs.cc"
#undef main
#undef exit
#undef cout
#undef cerr
#undef exists
#undef is_regular_file
#undef is_directory
#undef file_size
#undef is_empty

struct Run { int status; bool thrown; std::string out, err; };

static Run dumpsubs (std::vector<std::string> args)
{
	args.insert(args.begin(), "dumpsubs");
	std::vector<char*> argv;
	for (size_t i = 0; i < args.size(); ++i) argv.push_back(&args[i][0]);
	argv.push_back(0);
	std::vp_cout.str("");
	std::vp_cerr.str("");
	optind = 0;
	opterr = 0;
	Run r = {0, false, "", ""};
	try {
		r.status = dumpsubs_main((int) args.size(), &argv[0]);
	} catch (Exit& e) {
		r.status = e.status;
	} catch (std::exception&) {
		// the program is ended with a message and a failing status
		r.thrown = true;
		r.status = 134;
	}
	r.out = std::vp_cout.str();
	r.err = std::vp_cerr.str();
	return r;
}

static void put (std::string const& name, std::string const& f) { vp_vfs_put(name.c_str(), f.data(), f.size()); }

static void printed (Run const& r, std::string const& want)
{
	vp_assert(!r.thrown && r.status == 0, "a file is not printed");
	vp_assert(vp_str_eq(r.out, want), "what is printed is not the subtitles of the file");
	vp_observe_str(r.out);
}

static void failed (Run const& r, std::string const& named)
{
	vp_assert(r.status != 0, "a failure is not reported in the status");
	vp_assert(r.out.empty(), "something is printed although nothing was read");
	if (!r.thrown) {
		vp_assert(!r.err.empty(), "a failure is not reported");
		vp_assert(r.err.find(named) != std::string::npos, "the message does not name the file");
	}
	vp_observe(r.thrown);
}

static char plain (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != 0) & (c != '\n') & (c != '\r') & (c != '<') & (c != '{') & (c != '\xe2') & (c != '^') & (c != '|') & (c != ' ') & (c != '\t') & (c != '\v') & (c != '\f'));
	return c;
}

static std::string const SRT = "1\n00:00:01,000 --> 00:00:02,000\nab\n";
static std::string const OUT = "Subtitle 0 at 00:00:01:0 @ 1000/1 -> 00:00:02:0 @ 1000/1\n\t0 lines from top of subtitle\tab\n";

extern "C" void vp_harness ()
{
	std::string f, want;
	std::vector<std::string> args;
	switch (vp_case()) {
	case 0: {
		static char const* const names[4] = {"vp_doc.srt", "vp_doc.SRT", "vp_a.b.Srt", "vp -h.srt"};
		// 4: a blank line only
		int n = vp_choice("subtitles", 5), at = n > 1 && vp_choice("at", 2) ? n - 1 : 0, dashes = vp_choice("dashes", 2);
		if (n == 4) { n = 0; f = "\n"; }
		std::string name = names[vp_choice("name", 4)];
		for (int i = 0; i < n; ++i) {
			std::string t = std::string(1, (char) ('a' + i));
			if (i == at) { t += plain("byte"); t += plain("byte"); }
			t += "e";
			std::string d = digits(i, 1);
			f += "1\n00:00:0" + d + ",125 --> 00:00:0" + d + ",500\n" + (i == 1 ? "<i>" + t + "</i>" : t) + "\n";
			want += "Subtitle " + d + " at 00:00:0" + d + ":125 @ 1000/1 -> 00:00:0" + d + ":500 @ 1000/1\n\t0 lines from top of subtitle\t" + (i == 1 ? "<i>" + t + "</i>" : t) + "\n";
			if (i != 1) { f += "<u>two</u>\n"; want += "\t1 lines from top of subtitle\t<u>two</u>\n"; }
			f += "\n";
		}
		put(name, f);
		if (dashes) args.push_back("--");
		args.push_back(name);
		printed(dumpsubs(args), want);
		vp_cover("end");
		break;
	}
	case 1: {
		int ebu = vp_choice("EBU", 2), n = 1 + vp_choice("subtitles", 3), at = n > 1 && vp_choice("at", 2) ? n - 1 : 0;
		if (ebu) f = stl_gsi(n);
		for (int i = 0; i < n; ++i) {
			std::string t = std::string(1, (char) ('a' + i));
			if (i == at) for (int j = 0; j < 2; ++j) {
				if (ebu) { char c = (char) vp_range("letter", 'A', 'Z'); t += c; }
				else t += plain("byte");
			}
			t += "e";
			std::string d = digits(i, 1);
			if (ebu) {
				Tti x;
				for (int j = 0; j < 4; ++j) x.from[j] = x.to[j] = 0;
				x.from[2] = x.to[2] = i;
				x.to[3] = 5;
				x.text = t;
				f += x.bytes();
				want += "Subtitle " + d + " at 00:00:0" + d + ":0 @ 25/1 -> 00:00:0" + d + ":5 @ 25/1\n\t20 lines of 23 from top\t" + t + "\n";
			} else {
				f += "00:00:0" + d + ":00 , 00:00:0" + d + ":05 ," + t + "\n";
				want += "Subtitle " + d + " at 00:00:0" + d + ":0 -> 00:00:0" + d + ":5\n\t0 lines from top of subtitle\t" + t + "\n";
			}
		}
		put("vp_doc.stl", f);
		args.push_back("vp_doc.stl");
		Run r = dumpsubs(args);
		vp_assert(!r.thrown && r.status == 0, "a file is not printed");
		vp_assert(r.out.size() >= want.size(), "what is printed is not the subtitles of the file");
		if (r.out.size() < want.size()) vp_stop();
		// after the metadata
		size_t m = r.out.size() - want.size();
		vp_assert(m == 0 || r.out[m - 1] == '\n', "what is printed is not the subtitles of the file");
		vp_assert(vp_mem_eq(r.out.data() + m, want.data(), want.size()), "what is printed is not the subtitles of the file");
		vp_assert(ebu ? r.out.find("Subtitle 0 at ") == m : m == 0, "what is printed is not the subtitles of the file");
		vp_observe_str(r.out);
		vp_cover("end");
		break;
	}
	case 2: {
		// 0 a file, 1 another, 2 missing, 3 of another type, 4 no extension, 5 -h, 6 --help, 7 --, 8 an unknown option
		static char const* const words[9] = {"vp_a.srt", "vp_b.SRT", "vp_missing.srt", "vp_c.txt", "vp_d", "-h", "--help", "--", "-x"};
		put(words[0], SRT);
		put(words[1], SRT);
		put(words[3], SRT);
		put(words[4], SRT);
		int n = vp_choice("arguments", 4);
		bool ended = false, help = false;
		std::vector<std::string> files;
		std::vector<int> kinds;
		for (int i = 0; i < n; ++i) {
			int k = vp_choice("argument", 9);
			args.push_back(words[k]);
			if (ended || k < 5) { files.push_back(words[k]); kinds.push_back(k); }
			else if (k == 7) ended = true;
			else if (k < 7) help = true;
		}
		Run r = dumpsubs(args);
		if (help) {
			vp_assert(r.status == 0 && r.out.empty() && !r.err.empty(), "help is not given");
			vp_cover("help");
		} else if (files.size() == 1 && kinds[0] < 2) {
			printed(r, OUT);
			vp_cover("printed");
		} else {
			vp_assert(!r.thrown, "the program ends without a message of its own");
			failed(r, files.size() == 1 ? files[0] : "");
			vp_cover("failed");
		}
		break;
	}
	case 3: {
		int kind = vp_choice("error", 6), good = vp_choice("good", 2);
		std::string name = "vp_doc.srt", c (1, (char) vp_range("letter", 'g', 'z'));
		if (good) f = SRT + "\n";
		switch (kind) {
		case 0: f += "1\nnot a time" + c + "\n"; break;
		case 1: f += "1\n00:00:0" + c + ",000 --> 00:00:02,000\na\n"; break;
		case 2: f += SRT + "<font color=\"#12345" + c + "\">\n"; break;
		case 3: name = "vp_doc.stl"; f = good ? "00:00:01:00 , 00:00:02:00 , a\n" : ""; f += "$FontSize = " + c + "\n"; break;
		case 4: name = "vp_doc.stl"; f = stl_gsi(1, ("STL2" + c + ".01").c_str()) + Tti().bytes(); break;
		case 5: name = "vp_doc.stl"; f = stl_gsi(2) + Tti().bytes() + c; break;
		}
		put(name, f);
		args.push_back(name);
		failed(dumpsubs(args), name);
		vp_cover("end");
		break;
	}
	case 4: {
		std::string name = "vp_doc.";
		int srt = 1, stl = 1;
		for (int i = 0; i < 3; ++i) {
			int c = vp_byte("byte");
			vp_assume((c != 0) & (c != '/') & (c != '.'));
			srt = BOTH(srt, (c == "srt"[i]) | (c == "SRT"[i]));
			stl = BOTH(stl, (c == "stl"[i]) | (c == "STL"[i]));
			name += (char) c;
		}
		put(name, "1\n00:00:01,000 --> 00:00:02,000\nab\n");
		args.push_back(name);
		Run r = dumpsubs(args);
		vp_assert(srt == (!r.out.empty()), "a file of another type is printed, or one is not");
		if (!r.out.empty()) { printed(r, OUT); vp_cover("printed"); }
		else {
			// the text reader finds no subtitles in it
			vp_assert(EITHER(stl, r.status != 0), "a failure is not reported in the status");
			vp_cover("failed");
		}
		break;
	}
	}
}
