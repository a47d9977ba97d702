From 79443700cb8e673dc0afdcdc47fda6a5017fae78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 01/35] fix: compare Times with different frame rates by their
 instants

The cross-multiplication had numerator and denominator the wrong way round
(so that 12/25 compared greater than 900/1000) and could overflow an int.
---
 src/sub_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..458a1d6 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -47,7 +48,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) < (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -66,7 +67,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) > (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -85,7 +86,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) == (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
-- 
2.43.0


From a811ca3012f8f0dd0a3d56863b8e0e5f02a40481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 02/35] fix: round to the nearest frame in Time::add

Truncation lost a millisecond (or frame) for many exact sums.
---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 458a1d6..560aa5b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -181,7 +181,7 @@ Time::add (Time t)
 	SUB_ASSERT (t._rate);
 
 	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	*this = Time::from_frames(rint((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction()), result_rate);
 }
 
 void
-- 
2.43.0


From 1d81251e996eaa7036d6f0e3b9ef937c13afd958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 03/35] fix: carry into the seconds when Time::scale rounds up

Otherwise the result could have as many frames as its rate.
---
 src/sub_time.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 560aa5b..b648c09 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -194,4 +194,9 @@ Time::scale (float f)
 	double const s = Time::all_as_seconds() * f;
 	_seconds = floor (s);
 	_frames = rint ((s - _seconds) * _rate->fraction());
+	if (_frames >= _rate->integer_fraction()) {
+		/* We rounded up to a whole second */
+		++_seconds;
+		_frames = 0;
+	}
 }
-- 
2.43.0


From e0702b21b672c1535f3c8799d704c7c03204977d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:49 +0000
Subject: [PATCH 04/35] fix: convert unsigned long long with an unsigned format

---
 src/locale_convert.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/locale_convert.cc b/src/locale_convert.cc
index 83970f1..c1d8588 100644
--- a/src/locale_convert.cc
+++ b/src/locale_convert.cc
@@ -59,9 +59,9 @@ sub::locale_convert (unsigned long long x, int, bool)
 {
 	char buffer[64];
 #ifdef LIBSUB_WINDOWS
-	__mingw_snprintf (buffer, sizeof(buffer), "%lld", x);
+	__mingw_snprintf (buffer, sizeof(buffer), "%llu", x);
 #else
-	snprintf (buffer, sizeof(buffer), "%lld", x);
+	snprintf (buffer, sizeof(buffer), "%llu", x);
 #endif
 	return buffer;
 }
-- 
2.43.0


From 72ad1f07e371118fc85b9dc36d018ce2a2a0e459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 05/35] fix: do not add entries to the ISO6937 tables when
 decoding

Unassigned bytes and pairs were added to the global tables as U+0000, which
changed later conversions; the unassigned diacriticals C9h and CCh also
caused a null pointer dereference.
---
 src/iso6937.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..0e6b528 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -50,10 +50,20 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			/* Look up without [], which would add entries to the tables */
+			map<char, map<char, wchar_t> *>::const_iterator d = iso6937::diacriticals.find (diacritical.get());
+			if (d != iso6937::diacriticals.end()) {
+				map<char, wchar_t>::const_iterator c = d->second->find (u);
+				if (c != d->second->end()) {
+					o += c->second;
+				}
+			}
 			diacritical.reset ();
 		} else {
-			o += iso6937::main[u];
+			map<char, wchar_t>::const_iterator c = iso6937::main.find (u);
+			if (c != iso6937::main.end()) {
+				o += c->second;
+			}
 		}
 
 		++i;
-- 
2.43.0


From 9f670e52ccfa7a36810554b8e8e30e7727a30603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:12 +0000
Subject: [PATCH 06/35] fix: map the U8 language group to LANGUAGE_GROUP_UTF8

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From 2692e6d2fb5d6d6272d3a8fd583f338ed254dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:24 +0000
Subject: [PATCH 07/35] fix: do not write combining characters as ISO6937
 diacriticals

In ISO6937 a diacritical modifies the character after it; in Unicode it is
the one before, so the following character was changed.
---
 src/iso6937.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 0e6b528..2909cdf 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -96,7 +96,11 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		if (c && iso6937::diacriticals.find(c.get()) != iso6937::diacriticals.end()) {
+			/* A combining character: there is no way to represent it on its own,
+			   and its code would apply to whatever comes next.
+			*/
+		} else if (c) {
 			o += c.get ();
 		} else {
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
-- 
2.43.0


From 63b9de680d9b472d1977782e1d97e59198701e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:46 +0000
Subject: [PATCH 08/35] fix: fraction_from_screen_top() of a line with no
 screen height aborted.

---
 src/vertical_position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..0baf453 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -25,7 +25,7 @@ using namespace sub;
 float
 VerticalPosition::fraction_from_screen_top () const
 {
-	if (!reference || (!proportional && !line)) {
+	if (!reference || (!proportional && (!line || !lines))) {
 		return 0;
 	}
 
-- 
2.43.0


From 279d730c964140e227a73a578e4c8157fd11035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:46 +0000
Subject: [PATCH 09/35] fix: FontSize::points() truncated instead of rounding a
 proportional size.

---
 src/font_size.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/font_size.cc b/src/font_size.cc
index 00a74cf..3d858fd 100644
--- a/src/font_size.cc
+++ b/src/font_size.cc
@@ -18,6 +18,7 @@
 */
 
 #include "font_size.h"
+#include <cmath>
 
 using namespace sub;
 
@@ -38,7 +39,7 @@ FontSize::points (int screen_height_in_points) const
 		return _points.get ();
 	}
 
-	return _proportional.get() * screen_height_in_points;
+	return lrintf (_proportional.get() * screen_height_in_points);
 }
 
 FontSize
-- 
2.43.0


From 58924ca4a74154a9b1fa7654a69465e82ebfa01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:41 +0000
Subject: [PATCH 10/35] fix: extra </font> tags in SubRip files took the colour
 from an empty vector.

---
 src/subrip_reader.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..3ecce3e 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -300,11 +300,13 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			}
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
-			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
+			/* Maybe there were no colours, or this is an extra unmatched </font>; always keep the
+			   default colour at the bottom of the stack.
+			*/
+			if (colours.size() > 1) {
 				colours.pop_back();
-				p.colour = colours.back();
 			}
+			p.colour = colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
-- 
2.43.0


From ba4bfca22f77503f6a48bae5fd4e57b953507d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:53 +0000
Subject: [PATCH 11/35] fix: U+202B was only dropped from the last run of a
 SubRip line.

---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 3ecce3e..b4b6379 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -321,11 +321,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
@@ -333,6 +328,11 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 void
 SubripReader::maybe_content (RawSubtitle& p)
 {
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (p.text, "\xe2\x80\xab", "");
+
 	if (!p.text.empty ()) {
 		_subs.push_back (p);
 		p.text.clear ();
-- 
2.43.0


From fb1d1e30caa33448de2bfe3310222532a065f201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:06 +0000
Subject: [PATCH 12/35] fix: SSA tags in SubRip files changed the style of the
 text before them.

---
 src/subrip_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b4b6379..32d7be8 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -314,6 +314,8 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 				++i;
 			}
 			++i;
+			/* Text before this tag must not be affected by it */
+			maybe_content (p);
 			SSAReader::parse_tag(p, ssa, SSAReader::Context{288, 288, Colour(1, 1, 1)});
 		} else {
 			p.text += t[i];
-- 
2.43.0


From 52cbc1f64c4d4a385e168534a5d82d03a109f65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:21 +0000
Subject: [PATCH 13/35] fix: </font> lost the colours of SubRip <font> tags
 opened on earlier lines of the cue.

---
 src/subrip_reader.cc | 16 +++++++---------
 src/subrip_reader.h  |  2 ++
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 32d7be8..7df88d5 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -108,6 +108,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 			state = METADATA;
 			rs = RawSubtitle{};
 			prepare(rs);
+			_colours.assign(1, Colour(1, 1, 1));
 		}
 		break;
 		case METADATA:
@@ -225,9 +226,6 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	vector<Colour> colours;
-	colours.push_back (Colour (1, 1, 1));
-
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -273,10 +271,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else if (string(match[1]).size() == 8) {
 					p.colour = Colour::from_rgba_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -293,7 +291,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
 					p.colour.g = raw_convert<int>(string(match[2])) / 255.0;
 					p.colour.b = raw_convert<int>(string(match[3])) / 255.0;
-					colours.push_back (p.colour);
+					_colours.push_back (p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -303,10 +301,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			/* Maybe there were no colours, or this is an extra unmatched </font>; always keep the
 			   default colour at the bottom of the stack.
 			*/
-			if (colours.size() > 1) {
-				colours.pop_back();
+			if (_colours.size() > 1) {
+				_colours.pop_back();
 			}
-			p.colour = colours.back();
+			p.colour = _colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
diff --git a/src/subrip_reader.h b/src/subrip_reader.h
index bf438ed..67f4ea4 100644
--- a/src/subrip_reader.h
+++ b/src/subrip_reader.h
@@ -56,6 +56,8 @@ private:
 	void read (boost::function<boost::optional<std::string> ()> get_line);
 
 	std::list<std::string> _context;
+	/** colours of the <font> tags that are open in the current cue, with the default at the bottom */
+	std::vector<Colour> _colours = std::vector<Colour>(1, Colour(1, 1, 1));
 };
 
 }
-- 
2.43.0


From 21c44d54646e3b86d061d627cec59cdc42b50c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:24 +0000
Subject: [PATCH 14/35] fix: get_line_file() split lines longer than 255
 characters.

---
 src/util.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..af18918 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -79,7 +79,13 @@ sub::get_line_file (FILE* f)
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	string line (buffer);
+	/* Carry on if the line is longer than our buffer */
+	while (!line.empty() && line[line.length() - 1] != '\n' && fgets(buffer, sizeof(buffer), f)) {
+		line += buffer;
+	}
+
+	return line;
 }
 
 void
-- 
2.43.0


From 3af36446fb7781d48017c0d26bfd8cb605c4021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:33 +0000
Subject: [PATCH 15/35] fix: WebVTT cues whose identifier starts with NOTE were
 taken for notes.

---
 src/web_vtt_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..7e4ce3d 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -91,7 +91,8 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			/* A line such as "NOTES" is a cue identifier, not the start of a note */
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From f799a68eb7cd64b69315b3ad23413bc324a3a9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:40 +0000
Subject: [PATCH 16/35] fix: SSA styles without a colour column had a primary
 colour of 255 rather than 1.

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..7459043 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From df3cded7d56d767feda08288850c5df415ddfd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:46 +0000
Subject: [PATCH 17/35] fix: SSA tags starting with \fs or \clip were taken for
 \fs and \c.

---
 src/ssa_reader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 7459043..70079b5 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -283,6 +283,8 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
+	} else if (boost::starts_with(tag, "\\fsc") || boost::starts_with(tag, "\\fsp") || boost::starts_with(tag, "\\clip")) {
+		/* \fscx, \fscy, \fsp and \clip are not supported; don't take them for \fs and \c */
 	} else if (boost::starts_with(tag, "\\fs")) {
 		SUB_ASSERT (tag.length() > 3);
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-- 
2.43.0


From d604ce03cd314632080309713f4071fd5fdb107b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 18/35] fix: count only the line breaks that parse_line() acts
 on.

---
 src/ssa_reader.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 70079b5..2780aa0 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -338,15 +338,8 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-	/* Count the number of line breaks */
+	/* The number of line breaks */
 	int line_breaks = 0;
-	if (line.length() > 0) {
-		for (size_t i = 0; i < line.length() - 1; ++i) {
-			if (line[i] == '\\' && (line[i+1] == 'n' || line[i+1] == 'N')) {
-				++line_breaks;
-			}
-		}
-	}
 
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
@@ -381,6 +374,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 			break;
 		case BACKSLASH:
 			if (c == 'n' || c == 'N') {
+				++line_breaks;
 				if (!current.text.empty ()) {
 					subs.push_back (current);
 					current.text = "";
-- 
2.43.0


From fcc3d0a553ba8854b0a93faf649f0ff39a506223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:58 +0000
Subject: [PATCH 19/35] fix: SSA margins of 0000 overrode the style, and style
 margins those of earlier columns.

---
 src/ssa_reader.cc | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 2780aa0..e847d88 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -510,6 +510,10 @@ SSAReader::read (function<optional<string> ()> get_line)
 				optional<Style> style;
 				int left_margin = 0;
 				int right_margin = 0;
+				/* Non-zero margins given by the event, which override the style's */
+				optional<float> event_vertical_margin;
+				optional<int> event_left_margin;
+				optional<int> event_right_margin;
 
 				for (size_t i = 0; i < event.size(); ++i) {
 					trim (event[i]);
@@ -548,20 +552,28 @@ SSAReader::read (function<optional<string> ()> get_line)
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							/* Override the style if its non-zero */
-							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
+						if (raw_convert<float>(event[i]) != 0) {
+							event_vertical_margin = raw_convert<float>(event[i]);
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
-							left_margin = raw_convert<int>(event[i]);
+						if (raw_convert<int>(event[i]) != 0) {
+							event_left_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
-							right_margin = raw_convert<int>(event[i]);
+						if (raw_convert<int>(event[i]) != 0) {
+							event_right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-						auto context = Context(play_res_x, play_res_y, style ? style->primary_colour : Colour(1, 1, 1), left_margin, right_margin);
+						if (event_vertical_margin && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+							sub.vertical_position.proportional = *event_vertical_margin / play_res_y;
+						}
+						auto context = Context(
+							play_res_x,
+							play_res_y,
+							style ? style->primary_colour : Colour(1, 1, 1),
+							event_left_margin.get_value_or(left_margin),
+							event_right_margin.get_value_or(right_margin)
+							);
 						for (auto j: parse_line(sub, event[i], context)) {
 							_subs.push_back (j);
 						}
-- 
2.43.0


From 11df1bdb12f3c968482badc3031f0f890983f1f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:35 +0000
Subject: [PATCH 20/35] fix: SSA margins were lost when \an moves a
 vertically-centred subtitle.

---
 src/ssa_reader.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index e847d88..d876087 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -546,9 +546,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						/* parse_line() will ignore this if the subtitle ends up vertically centred */
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
@@ -564,7 +563,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 							event_right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-						if (event_vertical_margin && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (event_vertical_margin) {
 							sub.vertical_position.proportional = *event_vertical_margin / play_res_y;
 						}
 						auto context = Context(
-- 
2.43.0


From 4a9fc549cd219e13a516453d737bf949e841daf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:40 +0000
Subject: [PATCH 21/35] fix: ignore the contents of unknown SSA sections.

---
 src/ssa_reader.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index d876087..35a73a9 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -426,7 +426,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 	enum {
 		INFO,
 		STYLES,
-		EVENTS
+		EVENTS,
+		OTHER
 	} part = INFO;
 
 	int play_res_x = 288;
@@ -456,10 +457,17 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = STYLES;
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
+			} else {
+				part = OTHER;
 			}
 			continue;
 		}
 
+		if (part == OTHER) {
+			/* e.g. [Fonts], whose lines need not contain a colon */
+			continue;
+		}
+
 		size_t const colon = line->find (":");
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
@@ -467,6 +475,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 		trim (body);
 
 		switch (part) {
+		case OTHER:
+			break;
 		case INFO:
 			if (type == "PlayResX") {
 				play_res_x = raw_convert<int> (body);
-- 
2.43.0


From 0262da00cea50beb2a2524dcb0dca032f7bfd7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 22/35] fix: ignore leading *s in the definitions of SSA
 styles, as in their uses.

---
 src/ssa_reader.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 35a73a9..65ed3e9 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -114,6 +114,7 @@ public:
 			trim (style[i]);
 			if (keys[i] == "Name") {
 				name = style[i];
+				trim_left_if (name, boost::is_any_of ("*"));
 			} else if (keys[i] == "Fontname") {
 				font_name = style[i];
 			} else if (keys[i] == "Fontsize") {
-- 
2.43.0


From d784c737a6141e180548dec0c1ce922d25071491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:36 +0000
Subject: [PATCH 23/35] fix: the last digit of the start time in a text STL
 file was lost when no space followed it.

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..fad64e6 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -84,7 +84,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From f824cb0147bca7321267d04e36f916d3f4e0af82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:41 +0000
Subject: [PATCH 24/35] fix: line numbers in text STL files were reset by every
 style change.

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index fad64e6..a401757 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -99,6 +99,7 @@ STLTextReader::STLTextReader (istream& in)
 
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
+			_subtitle.vertical_position.line = 0;
 
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
@@ -167,6 +168,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From 253b1a7c82df98a93e9fc34bd989f879492c437d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:44 +0000
Subject: [PATCH 25/35] fix: the last line of a text STL file was ignored if it
 had no newline.

---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index a401757..f9df1be 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -47,7 +47,7 @@ STLTextReader::STLTextReader (istream& in)
 	while (in.good ()) {
 		string line;
 		getline (in, line);
-		if (!in.good ()) {
+		if (in.fail ()) {
 			return;
 		}
 
-- 
2.43.0


From 5cd778c1e9f8a0c0f1954799e0656544769d071d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:50 +0000
Subject: [PATCH 26/35] fix: lines of text STL files with non-numeric times
 stopped the whole file from being read.

---
 src/stl_text_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f9df1be..03abb33 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -143,7 +143,12 @@ STLTextReader::time (string t) const
 		return optional<Time> ();
 	}
 
-	return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	try {
+		return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	} catch (boost::bad_lexical_cast &) {
+		warn (String::compose ("Unrecognised time %1", t));
+		return optional<Time> ();
+	}
 }
 
 void
-- 
2.43.0


From 28eb18fa421433c97cb0160e22402b3f1cba3479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:57 +0000
Subject: [PATCH 27/35] fix: use the actual frame rate for the times in
 23.976fps binary STL files, rather than 23.

---
 src/stl_binary_reader.cc | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..4565ab3 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -25,6 +25,7 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
+#include <cmath>
 #include <iostream>
 
 using std::map;
@@ -77,9 +78,11 @@ public:
 		return v;
 	}
 
-	Time get_timecode (int offset, int frame_rate) const
+	Time get_timecode (int offset, float frame_rate) const
 	{
-		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], Rational (frame_rate, 1));
+		int const whole = lrintf (frame_rate);
+		Rational const rate = whole == frame_rate ? Rational (whole, 1) : Rational (lrintf (frame_rate * 1000), 1000);
+		return Time::from_hmsf (_buffer[offset], _buffer[offset + 1], _buffer[offset + 2], _buffer[offset + 3], rate);
 	}
 
 protected:
@@ -146,7 +149,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	reader->read (1024, "GSI");
 
 	code_page_number = atoi (reader->get_string(0, 3).c_str());
-	frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	float const exact_frame_rate = stl_dfc_to_frame_rate (reader->get_string(3, 8));
+	frame_rate = exact_frame_rate;
 	display_standard = _tables.display_standard_file_to_enum (reader->get_string(11, 1));
 	language_group = _tables.language_group_file_to_enum (reader->get_string(12, 2));
 	language = _tables.language_file_to_enum (reader->get_string(14, 2));
@@ -210,8 +214,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, frame_rate);
-			sub.to = reader->get_timecode(9, frame_rate);
+			sub.from = reader->get_timecode(5, exact_frame_rate);
+			sub.to = reader->get_timecode(9, exact_frame_rate);
 			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
 			 * is wrong if the EBN of this TTI block is not 255 (I think).
 			 */
-- 
2.43.0


From 8e91cf8b6bbb04273340bd636f9e875779f2368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 28/35] fix: binary STL rows given as line numbers were rounded
 down, often to the row above.

---
 src/stl_binary_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..b7d1d6b 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -129,13 +129,13 @@ vertical_position (sub::Line const & line)
 		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
-- 
2.43.0


From 402fbff03b3d629d70e2ff6361b937c7dd42d6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 29/35] fix: crash when writing binary STL with a line number
 but no number of lines.

---
 src/stl_binary_writer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index b7d1d6b..9c27ecc 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -126,7 +126,7 @@ vertical_position (sub::Line const & line)
 			break;
 		}
 	} else if (line.vertical_position.line) {
-		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
+		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get_value_or (ROWS);
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
 			vp = rint (prop * ROWS);
-- 
2.43.0


From f78dd28ae8fe59d5065dd6419ca274e5684b0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:54 +0000
Subject: [PATCH 30/35] fix: lines positioned from the top of the subtitle were
 all written to the same row of binary STL.

---
 src/stl_binary_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 9c27ecc..268740f 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -137,7 +137,8 @@ vertical_position (sub::Line const & line)
 		case BOTTOM_OF_SCREEN:
 			vp = rint ((1 - prop) * ROWS);
 			break;
-		default:
+		case TOP_OF_SUBTITLE:
+			vp = line.vertical_position.line.get();
 			break;
 		}
 	}
-- 
2.43.0


From c4e56fc4071136359c2b003b5682c9e065677b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:58 +0000
Subject: [PATCH 31/35] fix: give the longest row in the binary STL header in
 characters, not bytes, and no more than the field can hold.

---
 src/stl_binary_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 268740f..62857ee 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -332,7 +332,7 @@ sub::write_stl_binary (
 		for (auto const& j: i.lines) {
 			int t = 0;
 			for (auto const& k: j.blocks) {
-				t += k.text.size ();
+				t += utf_to_utf<wchar_t> (k.text).length ();
 			}
 			longest = std::max (longest, t);
 		}
@@ -367,7 +367,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min (longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 2a4912c59d23764c9133fbc13271944c00f468de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:04 +0000
Subject: [PATCH 32/35] fix: times just before a second could be written to
 binary STL with frame numbers equal to the frame rate.

---
 src/stl_binary_writer.cc | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 62857ee..78ff683 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -146,6 +146,22 @@ vertical_position (sub::Line const & line)
 	return vp;
 }
 
+/** Write a time code (hours, minutes, seconds, frames) to 4 bytes of a buffer */
+static void
+put_timecode (char* p, sub::Time const & time, sub::Rational rate)
+{
+	int const frames_per_second = rint (rate.fraction());
+	int frames = time.frames_at (rate);
+	/* The time may have been rounded up to a whole second */
+	int const seconds = time.hours() * 3600 + time.minutes() * 60 + time.seconds() + frames / frames_per_second;
+	frames %= frames_per_second;
+
+	put_int_as_int (p + 0, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 vector<char*>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
@@ -231,15 +247,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 5, i.from, sub::Rational(frames_per_second * 1000, 1000));
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 9, i.to, sub::Rational(frames_per_second * 1000, 1000));
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From bcd0a059e257bf12b7625963e94bd1077518a319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:07 +0000
Subject: [PATCH 33/35] fix: dump() missed out line numbers when the number of
 lines on the screen is not known.

---
 src/util.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index af18918..2d4acee 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -121,8 +121,11 @@ sub::dump (shared_ptr<const Reader> reader, ostream& os)
 
 			if (j.vertical_position.proportional) {
 				os << j.vertical_position.proportional.get() << " of screen";
-			} else if (j.vertical_position.line && j.vertical_position.lines) {
-				os << j.vertical_position.line.get() << " lines of " << j.vertical_position.lines.get();
+			} else if (j.vertical_position.line) {
+				os << j.vertical_position.line.get() << " lines";
+				if (j.vertical_position.lines) {
+					os << " of " << j.vertical_position.lines.get();
+				}
 			}
 			if (j.vertical_position.reference) {
 				os << " from ";
-- 
2.43.0


From f0538035a6a54ec9a9c4bd76740a93882e98be6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:41 +0000
Subject: [PATCH 34/35] fix: Time::frames_at() overflowed an int for high rates

---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index b648c09..a98b81a 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -135,7 +135,7 @@ Time::frames_at (Rational rate) const
 		throw UnknownFrameRateError ();
 	}
 
-	return rint (double (_frames) * _rate.get().denominator * rate.numerator / (_rate.get().numerator * rate.denominator));
+	return rint (double (_frames) * _rate.get().denominator * rate.numerator / (double (_rate.get().numerator) * rate.denominator));
 }
 
 int
-- 
2.43.0


From d8d3c89c6949a63298393e548f2d476457844832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:46 +0000
Subject: [PATCH 35/35] fix: fractions of font sizes in SSA styles were
 ignored.

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 65ed3e9..253b035 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -118,7 +118,7 @@ public:
 			} else if (keys[i] == "Fontname") {
 				font_name = style[i];
 			} else if (keys[i] == "Fontsize") {
-				font_size = raw_convert<int> (style[i]);
+				font_size = raw_convert<float> (style[i]);
 			} else if (keys[i] == "PrimaryColour") {
 				primary_colour = colour (style[i]);
 			} else if (keys[i] == "BackColour") {
@@ -160,7 +160,7 @@ public:
 
 	string name;
 	optional<string> font_name;
-	int font_size; ///< points
+	float font_size; ///< points
 	Colour primary_colour;
 	/** outline colour */
 	optional<Colour> back_colour;
-- 
2.43.0

