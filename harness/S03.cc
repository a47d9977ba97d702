//@ src colour.cc exceptions.cc font_size.cc horizontal_position.cc locale_convert.cc raw_convert.cc rational.cc raw_subtitle.cc reader.cc ssa_reader.cc sub_time.cc subrip_reader.cc subtitle.cc util.cc vertical_position.cc effect.cc web_vtt_reader.cc
//@ case 0 any text at all :: a line of 5 bytes (7 in the thorough tier), each any of the bytes <{>}/bBiIuU\x or space, after and before other text [quick=200]
//@ case 1 tags between texts :: 3 tags (4 in the thorough tier), each on or off, angled or braced, letter any of bBiIuU, text of any byte before, between and after them, present or not (4 combinations; all in the thorough tier) [quick=200]
//@ case 2 flags over the lines of a cue :: 3 lines in two cues, each with a tag or none, before or after its text, letter any of bBiIuU [quick=100]
//@ case 3 SSA override tags :: 3 of \b1 \b0 \i1 \i0 \u1 \u0 or an unknown tag of any 2 letters, with any text bytes around [quick=100]
//@ case 4 long texts and many tags :: 32 tags, one of them symbolic, in a line of 4000 characters [quick=60]
//@ case 5 tags next to line separators :: 4 pieces of text, tags and U+2028 [quick=60]
//@ cover 0: tagged, plain
//@ cover 1: end
//@ cover 2: end
//@ cover 3: end
//@ cover 4: end
//@ cover 5: end
//@ assume text bytes of cases 1 to 5 are none of NUL, LF, CR, <, {, E2h, EFh
#include "subrip.h"

static char text_byte (char const* name)
{
	char c = (char) vp_byte(name);
	vp_assume((c != '\n') & (c != '\r') & (c != '<') & (c != '{') & (c != 0) & (c != '\xe2') & (c != '\xef'));
	return c;
}

// the flags in force, kept without forking
struct Flags {
	int b, i, u;
	Flags () : b(0), i(0), u(0) {}
	void set (char letter, int on)
	{
		b = (int) vp_ite((letter == 'b') | (letter == 'B'), on, b);
		i = (int) vp_ite((letter == 'i') | (letter == 'I'), on, i);
		u = (int) vp_ite((letter == 'u') | (letter == 'U'), on, u);
	}
};

struct Piece {
	std::string text;
	Flags flags;
	int line;
	ll from;
};

static void check (std::string const& doc, std::vector<Piece> const& want)
{
	std::vector<RawSubtitle> got;
	try {
		got = SubripReader(doc).subtitles();
	} catch (std::exception& e) {
		vp_fail("a well-formed document is refused");
	}
	vp_assert(got.size() == want.size(), "the number of runs is wrong");
	if (got.size() != want.size()) vp_stop();
	All text, flags, place, others;
	for (size_t i = 0; i < got.size(); ++i) {
		RawSubtitle const& g = got[i];
		text.add(vp_str_eq(g.text, want[i].text));
		flags.add(((int) g.bold == want[i].flags.b) & ((int) g.italic == want[i].flags.i) & ((int) g.underline == want[i].flags.u));
		place.add(g.vertical_position.line && g.vertical_position.line.get() == want[i].line && g.vertical_position.reference && g.vertical_position.reference.get() == TOP_OF_SUBTITLE);
		place.add(BOTH(at(g.from, want[i].from), at(g.to, want[i].from + 500)));
		others.add(BOTH(about(g.colour.r, 1), BOTH(about(g.colour.g, 1), about(g.colour.b, 1))));
		vp_observe_str(g.text);
	}
	vp_assert(text.v, "a run has the wrong text");
	vp_assert(flags.v, "a run has the wrong bold, italic or underline");
	vp_assert(place.v, "a run is in the wrong place");
	vp_assert(others.v, "bold, italic or underline changed the colour");
}

static std::string cue (ll ms) { return "1\n" + stamp(ms, ',') + " --> " + stamp(ms + 500, ',') + "\n"; }

static void push (std::vector<Piece>& want, std::string& cur, Flags const& f, int line, ll from)
{
	if (cur.empty()) return;
	Piece p;
	p.text = cur; p.flags = f; p.line = line; p.from = from;
	want.push_back(p);
	cur.clear();
}

extern "C" void vp_harness ()
{
	std::vector<Piece> want;
	Flags f;
	std::string doc = cue(1000), cur;
	switch (vp_case()) {
	case 0: {
		int n = vp_tier() ? 7 : 5;
		std::string t = vp_choice("text before", 2) ? "p" : "";
		size_t first = t.size();
		for (int i = 0; i < n; ++i) t += (char) vp_char("byte", "<{>}/bBiIuU\\x ", 14);
		int after = vp_choice("text after", 2);
		if (after) t += "q";
		// an SSA override, or a <font>, is not for this case; no font here as there is no 'f'
		for (size_t i = first; i + 1 < t.size(); ++i) vp_assume(EITHER(t[i] != '{', t[i + 1] != '\\'));
		bool tag = false, plain = false;
		size_t i = 0;
		while (i < t.size()) {
			int matched = 0;
			if (t[i] == '<' || t[i] == '{') {
				char close = t[i] == '<' ? '>' : '}';
				size_t j = i + 1;
				int on = 1;
				if (j < t.size() && t[j] == '/') { on = 0; ++j; }
				if (j + 1 < t.size() && t[j + 1] == close) {
					char l = t[j];
					if (l == 'b' || l == 'B' || l == 'i' || l == 'I' || l == 'u' || l == 'U') {
						push(want, cur, f, 0, 1000);
						f.set(l, on);
						i = j + 2;
						matched = 1;
						tag = true;
					}
				}
			}
			if (!matched) { cur += t[i]; ++i; plain = true; }
		}
		push(want, cur, f, 0, 1000);
		check(doc + t + "\n", want);
		if (tag && plain) vp_cover("tagged");
		if (!tag) vp_cover("plain");
		break;
	}
	case 1: {
		int n = vp_tier() ? 4 : 3, texts = vp_choice("texts", vp_tier() ? 1 << (n + 1) : 4);
		if (!vp_tier()) texts = texts == 0 ? 15 : texts == 1 ? 9 : texts == 2 ? 10 : 4;
		for (int i = 0; i <= n; ++i) {
			if (texts & (1 << i)) { char c = text_byte("byte"); doc += c; cur += c; }
			if (i == n) break;
			int k = n > 3 && i == 0 ? 0 : vp_choice("kind", 4);
			char l = (char) vp_char("letter", "bBiIuU", 6);
			doc += k & 1 ? "{" : "<";
			if (k & 2) doc += "/";
			doc += l;
			doc += k & 1 ? "}" : ">";
			push(want, cur, f, 0, 1000);
			f.set(l, !(k & 2));
		}
		push(want, cur, f, 0, 1000);
		check(doc + "\n", want);
		vp_cover("end");
		break;
	}
	case 2: {
		for (int i = 0; i < 4; ++i) {
			if (i == 3) { doc += "\n" + cue(2000); f = Flags(); }
			ll from = i == 3 ? 2000 : 1000;
			int line = i % 3;
			// no tag, or one that opens (lines 0 and 1) or closes (line 2)
			int k = i == 3 ? 0 : vp_tier() ? vp_choice("tag", 5) : vp_choice("tag", 2) ? (i == 0 ? 1 : i == 1 ? 2 : 3) : 0, before = k ? vp_choice("before the text", 2) : 0;
			std::string tag;
			char l = 0;
			int on = k < 3;
			if (k) {
				l = (char) vp_char("letter", "biU", 3);
				tag = std::string(k & 1 ? "<" : "{") + (on ? "" : "/") + l + (k & 1 ? ">" : "}");
			}
			if (before) f.set(l, on);
			cur = std::string(1, (char) ('p' + i)) + (i == 1 ? std::string(1, text_byte("byte")) : "");
			doc += (before ? tag : "") + cur + (before ? "" : tag) + "\n";
			push(want, cur, f, line, from);
			if (k && !before) f.set(l, on);
		}
		check(doc, want);
		vp_cover("end");
		break;
	}
	case 3: {
		doc += "p";
		cur = "p";
		for (int i = 0; i < 3; ++i) {
			int k = vp_choice("tag", 3);
			if (k < 2) {
				char l = (char) vp_char("letter", "biu", 3);
				doc += std::string("{\\") + l + (k ? "1" : "0") + "}";
				push(want, cur, f, 0, 1000);
				f.set(l, k);
			} else {
				char x = (char) vp_range("tag letter", 'A', 'Z'), y = (char) vp_range("tag letter", 'a', 'z');
				doc += std::string("{\\") + x + y + "}";
				// whether an unknown tag splits the text does not matter: put another tag after it
				doc += "<b>";
				push(want, cur, f, 0, 1000);
				f.set('b', 1);
			}
			if (vp_choice("text", 2)) { char c = text_byte("byte"); doc += c; cur += c; }
		}
		push(want, cur, f, 0, 1000);
		check(doc + "\n", want);
		vp_cover("end");
		break;
	}
	case 4: {
		int k = vp_choice("place", 4) * 8;
		for (int i = 0; i < 32; ++i) {
			char l = i == k ? (char) vp_char("letter", "bBiIuU", 6) : "biuBIU"[i % 6];
			int on = i % 4 < 2;
			doc += std::string(i & 1 ? "<" : "{") + (on ? "" : "/") + l + (i & 1 ? ">" : "}");
			push(want, cur, f, 0, 1000);
			f.set(l, on);
			cur = std::string(120, (char) ('A' + i));
			if (i == k) cur[60] = text_byte("byte");
			doc += cur;
		}
		push(want, cur, f, 0, 1000);
		check(doc, want);
		vp_cover("end");
		break;
	}
	case 5: {
		int line = 0;
		for (int i = 0; i < 4; ++i) {
			switch (vp_choice("piece", 3)) {
			case 0: { char c = text_byte("byte"); doc += c; cur += c; break; }
			case 1: {
				char l = (char) vp_char("letter", "BiU", 3);
				doc += std::string("<") + l + ">";
				push(want, cur, f, line, 1000);
				f.set(l, 1);
				break;
			}
			case 2:
				doc += "\xe2\x80\xa8";
				push(want, cur, f, line, 1000);
				++line;
				break;
			}
		}
		doc += "!";
		cur += "!";
		push(want, cur, f, line, 1000);
		check(doc + "\n", want);
		vp_cover("end");
		break;
	}
	}
}
