From 067c2f020849072b5705771b22b483a58704c7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:18 +0000
Subject: [PATCH 01/65] fix: do not split lines longer than 254 bytes when
 reading from a FILE*.

---
 src/util.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/util.cc b/src/util.cc
index 244630d..08bddf7 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -73,13 +73,20 @@ sub::get_line_string (string* s)
 optional<string>
 sub::get_line_file (FILE* f)
 {
-	char buffer[256];
-	char* r = fgets (buffer, sizeof (buffer), f);
-	if (r == 0) {
+	string line;
+	int c;
+	while ((c = fgetc(f)) != EOF) {
+		line += static_cast<char>(c);
+		if (c == '\n') {
+			break;
+		}
+	}
+
+	if (line.empty()) {
 		return optional<string> ();
 	}
 
-	return string (buffer);
+	return line;
 }
 
 void
-- 
2.43.0


From b9eee99cec234c27aa29d833ab69311d917c2383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:40 +0000
Subject: [PATCH 02/65] fix: handle unmatched and multi-line </font> tags in
 SubRip files.

Previously an unmatched </font> read from the back of an empty vector.
---
 src/subrip_reader.cc | 16 +++++++---------
 src/subrip_reader.h  |  2 ++
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index b95e6be..30e1544 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -108,6 +108,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 			state = METADATA;
 			rs = RawSubtitle{};
 			prepare(rs);
+			_colours.clear();
 		}
 		break;
 		case METADATA:
@@ -225,9 +226,6 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
-	vector<Colour> colours;
-	colours.push_back (Colour (1, 1, 1));
-
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -273,10 +271,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			if (boost::regex_search(tag, match, re)) {
 				if (string(match[1]).size() == 6) {
 					p.colour = Colour::from_rgb_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else if (string(match[1]).size() == 8) {
 					p.colour = Colour::from_rgba_hex(match[1]);
-					colours.push_back(p.colour);
+					_colours.push_back(p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -293,7 +291,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					p.colour.r = raw_convert<int>(string(match[1])) / 255.0;
 					p.colour.g = raw_convert<int>(string(match[2])) / 255.0;
 					p.colour.b = raw_convert<int>(string(match[3])) / 255.0;
-					colours.push_back (p.colour);
+					_colours.push_back (p.colour);
 				} else {
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
@@ -301,10 +299,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		} else if (has_next(t, i, "</font>")) {
 			maybe_content (p);
 			/* Maybe there were no colours, or this is an extra unmatched </font> */
-			if (!colours.empty()) {
-				colours.pop_back();
-				p.colour = colours.back();
+			if (!_colours.empty()) {
+				_colours.pop_back();
 			}
+			p.colour = _colours.empty() ? Colour(1, 1, 1) : _colours.back();
 		} else if (has_next(t, i, "{\\")) {
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
diff --git a/src/subrip_reader.h b/src/subrip_reader.h
index bf438ed..b35f997 100644
--- a/src/subrip_reader.h
+++ b/src/subrip_reader.h
@@ -56,6 +56,8 @@ private:
 	void read (boost::function<boost::optional<std::string> ()> get_line);
 
 	std::list<std::string> _context;
+	/** stack of colours set by the <font> tags that are open in the current subtitle */
+	std::vector<Colour> _colours;
 };
 
 }
-- 
2.43.0


From f6ed9458b60d939c95bf5ee7cda2649c4bde8730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 03/65] fix: read the last line of a text STL file even if it
 has no newline.

---
 src/stl_text_reader.cc | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index f08a438..5b5dcd4 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -44,13 +44,8 @@ STLTextReader::STLTextReader (istream& in)
 	_subtitle.vertical_position.line = 0;
 	_subtitle.vertical_position.reference = TOP_OF_SUBTITLE;
 
-	while (in.good ()) {
-		string line;
-		getline (in, line);
-		if (!in.good ()) {
-			return;
-		}
-
+	string line;
+	while (getline (in, line)) {
 		trim (line);
 
 		if (starts_with (line, "//")) {
-- 
2.43.0


From b193aaa012a13eb72a58d019492d5e7346f6e2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 04/65] fix: do not lose the last digit of in-times in text STL
 files.

This happened when there was no space between the time and the comma.
---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 5b5dcd4..7b00426 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -79,7 +79,7 @@ STLTextReader::STLTextReader (istream& in)
 				continue;
 			}
 
-			string from_string = line.substr (0, divider[0] - 1);
+			string from_string = line.substr (0, divider[0]);
 			trim (from_string);
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
 			trim (to_string);
-- 
2.43.0


From 4401820fc47c79497b7b448be6af214d9f4af195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:54 +0000
Subject: [PATCH 05/65] fix: use correct line numbers in text STL files.

Pushing a block reset the line number, so e.g. the third line of a subtitle
was given the same number as the second.
---
 src/stl_text_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 7b00426..c7643f8 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -94,6 +94,7 @@ STLTextReader::STLTextReader (istream& in)
 
 			_subtitle.from = from.get ();
 			_subtitle.to = to.get ();
+			_subtitle.vertical_position.line = 0;
 
 			/* Parse ^B/^I/^U */
 			string text = line.substr (divider[1] + 1);
@@ -162,6 +163,5 @@ STLTextReader::maybe_push ()
 	if (!_subtitle.text.empty ()) {
 		_subs.push_back (_subtitle);
 		_subtitle.text.clear ();
-		_subtitle.vertical_position.line = 0;
 	}
 }
-- 
2.43.0


From d68b1e63f3ff5f61e3fd560c67ae12bdf27948d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 06/65] fix: compare Times which have different frame rates
 correctly.

The frame counts were multiplied by the rates the wrong way round, so e.g.
12 frames at 24fps was not equal to 500ms.  Also avoid integer overflow.
---
 src/sub_time.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 763b4e4..458a1d6 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -21,6 +21,7 @@
 #include "sub_assert.h"
 #include "exceptions.h"
 #include <cmath>
+#include <cstdint>
 #include <iomanip>
 #include <iostream>
 
@@ -47,7 +48,7 @@ sub::operator< (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) < (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) < (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -66,7 +67,7 @@ sub::operator> (sub::Time const & a, sub::Time const & b)
 		throw UnknownFrameRateError ();
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) > (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) > (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
@@ -85,7 +86,7 @@ sub::operator== (sub::Time const & a, sub::Time const & b)
 		return false;
 	}
 
-	return (a._frames * a._rate.get().numerator * b._rate.get().denominator) == (b._frames * b._rate.get().numerator * a._rate.get().denominator);
+	return (int64_t(a._frames) * a._rate.get().denominator * b._rate.get().numerator) == (int64_t(b._frames) * b._rate.get().denominator * a._rate.get().numerator);
 }
 
 bool
-- 
2.43.0


From 42b88fc6fb8569b3b8de4bf817d90232e681b07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 07/65] fix: round to the nearest frame in Time::add.

Truncation meant that adding 0 to a Time could take a frame off it.
---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 458a1d6..560aa5b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -181,7 +181,7 @@ Time::add (Time t)
 	SUB_ASSERT (t._rate);
 
 	Rational result_rate = max (*_rate, *t._rate);
-	*this = Time::from_frames((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction(), result_rate);
+	*this = Time::from_frames(rint((all_as_seconds() + t.all_as_seconds()) * result_rate.fraction()), result_rate);
 }
 
 void
-- 
2.43.0


From 10a236ad524e726963991f2fc43fa48ff08c5d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 08/65] fix: keep frame count below the frame rate in
 Time::scale.

---
 src/sub_time.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 560aa5b..7085d68 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -194,4 +194,9 @@ Time::scale (float f)
 	double const s = Time::all_as_seconds() * f;
 	_seconds = floor (s);
 	_frames = rint ((s - _seconds) * _rate->fraction());
+	if (_frames >= _rate->integer_fraction()) {
+		/* We rounded up to the next second */
+		++_seconds;
+		_frames = 0;
+	}
 }
-- 
2.43.0


From 4c0ae7705d1b12746a0e61b500ab30bfcb06cd0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 09/65] fix: set up ISO6937 tables safely if there is more than
 one thread.

---
 src/iso6937.cc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 8409f9b..535c0f9 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -33,12 +33,18 @@ using boost::optional;
 using boost::locale::conv::utf_to_utf;
 using namespace sub;
 
+/** Set up the tables, if this has not already been done.  Safe to call from multiple threads */
+static void
+ensure_tables ()
+{
+	static bool const done = []() { make_iso6937_tables(); return true; }();
+	(void) done;
+}
+
 wstring
 sub::iso6937_to_utf16 (string s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	wstring o;
 
@@ -77,9 +83,7 @@ find (map<char, wchar_t> const & m, wchar_t c)
 string
 sub::utf16_to_iso6937 (wstring s)
 {
-	if (iso6937::diacriticals.empty ()) {
-		make_iso6937_tables ();
-	}
+	ensure_tables ();
 
 	/* XXX: slow */
 
-- 
2.43.0


From abab6714ce7da1faa83fbaebdd7844f4a23489f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:21 +0000
Subject: [PATCH 10/65] fix: cope with undefined codes and combinations in
 ISO6937 text.

Undefined codes gave NUL characters (and added them to the conversion tables,
so that NULs were then encoded as those codes), and 0xc9 or 0xcc followed
by a character caused a crash.
---
 src/iso6937.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index 535c0f9..d7017e6 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -56,10 +56,16 @@ sub::iso6937_to_utf16 (string s)
 		if (u >= 0xc1 && u <= 0xcf) {
 			diacritical = u;
 		} else if (diacritical) {
-			o += (*iso6937::diacriticals[diacritical.get()])[u];
+			auto table = iso6937::diacriticals.find(diacritical.get());
 			diacritical.reset ();
-		} else {
-			o += iso6937::main[u];
+			if (table != iso6937::diacriticals.end() && table->second->find(u) != table->second->end()) {
+				o += table->second->find(u)->second;
+			} else if (iso6937::main.find(u) != iso6937::main.end()) {
+				/* This diacritical can't be applied to this character, so just use the character */
+				o += iso6937::main.find(u)->second;
+			}
+		} else if (iso6937::main.find(u) != iso6937::main.end()) {
+			o += iso6937::main.find(u)->second;
 		}
 
 		++i;
-- 
2.43.0


From fcdb8e37cb3f3bd40c2ae71c3989f539ae197ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:54 +0000
Subject: [PATCH 11/65] fix: encode Unicode combining marks to ISO6937
 correctly.

They were written as ISO6937 diacriticals after the letter they modify, so they
were then applied to whatever came next.
---
 src/iso6937.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/iso6937.cc b/src/iso6937.cc
index d7017e6..bcfe665 100644
--- a/src/iso6937.cc
+++ b/src/iso6937.cc
@@ -96,7 +96,15 @@ sub::utf16_to_iso6937 (wstring s)
 	string o;
 	for (size_t i = 0; i < s.size(); ++i) {
 		optional<char> c = find (iso6937::main, s[i]);
-		if (c) {
+		if (c && iso6937::diacriticals.find(c.get()) != iso6937::diacriticals.end()) {
+			/* This is a combining mark, which comes before the letter that it modifies in ISO6937,
+			   rather than after it as in Unicode.  Ignore it if the combination is not possible.
+			*/
+			optional<char> letter = i > 0 ? find (iso6937::main, s[i - 1]) : optional<char>();
+			if (letter && iso6937::diacriticals[c.get()]->find(letter.get()) != iso6937::diacriticals[c.get()]->end()) {
+				o.insert (o.length() - 1, 1, c.get());
+			}
+		} else if (c) {
 			o += c.get ();
 		} else {
 			for (map<char, map<char, wchar_t> *>::const_iterator j = iso6937::diacriticals.begin(); j != iso6937::diacriticals.end(); ++j) {
-- 
2.43.0


From 61395a8949a987c8d5473cef854b4df83b627665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 12/65] fix: do not describe UTF-8 binary STL files as
 Latin/Hebrew.

---
 src/stl_binary_tables.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stl_binary_tables.cc b/src/stl_binary_tables.cc
index 2d275df..f606e7c 100644
--- a/src/stl_binary_tables.cc
+++ b/src/stl_binary_tables.cc
@@ -211,7 +211,7 @@ STLBinaryTables::STLBinaryTables ()
 	code<LanguageGroup, string> (_language_group_map, "02", LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic");
 	code<LanguageGroup, string> (_language_group_map, "03", LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek");
 	code<LanguageGroup, string> (_language_group_map, "04", LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew");
-	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_LATIN_HEBREW, "UTF-8");
+	code<LanguageGroup, string> (_language_group_map, "U8", LANGUAGE_GROUP_UTF8, "UTF-8");
 
 	code<Language, string> (_language_map, "00", LANGUAGE_UNKNOWN, "Unknown");
 	code<Language, string> (_language_map, "01", LANGUAGE_ALBANIAN, "Albanian");
-- 
2.43.0


From 034f1eb74ee813e6a910720a97b6eac976fec347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 13/65] fix: write subtitles with no screen height in lines to
 binary STL.

Subtitles from SubRip or text STL files have a line number but no total number
of lines, and trying to write them stopped the whole program with an assertion
failure.
---
 src/stl_binary_writer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 1b1d52f..a41842f 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -126,9 +126,10 @@ vertical_position (sub::Line const & line)
 			break;
 		}
 	} else if (line.vertical_position.line) {
-		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get ();
+		float const prop = float (line.vertical_position.line.get()) / line.vertical_position.lines.get_value_or (ROWS);
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
+		case TOP_OF_SUBTITLE:
 			vp = prop * ROWS;
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-- 
2.43.0


From 74d04811c9f8125ad53d3d696a4f317ef02a1660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 14/65] fix: round rows in binary STL files to nearest.

Truncation of the floating-point value meant that e.g. row 7 of 23 was written
as row 6.
---
 src/stl_binary_writer.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index a41842f..ef00a1e 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -130,13 +130,13 @@ vertical_position (sub::Line const & line)
 		switch (line.vertical_position.reference.get_value_or (TOP_OF_SCREEN)) {
 		case TOP_OF_SCREEN:
 		case TOP_OF_SUBTITLE:
-			vp = prop * ROWS;
+			vp = rint (prop * ROWS);
 			break;
 		case VERTICAL_CENTRE_OF_SCREEN:
-			vp = (prop + 0.5) * ROWS;
+			vp = rint ((prop + 0.5) * ROWS);
 			break;
 		case BOTTOM_OF_SCREEN:
-			vp = (1 - prop) * ROWS;
+			vp = rint ((1 - prop) * ROWS);
 			break;
 		default:
 			break;
-- 
2.43.0


From 4940a3f20dccab0176c606b9757ce641b4f23973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:15 +0000
Subject: [PATCH 15/65] fix: do not join lines which round to the same row in
 binary STL files.

---
 src/stl_binary_writer.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index ef00a1e..6d71670 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -174,10 +174,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		for (auto const& j: i.lines) {
 
-			/* CR/LF down to this line */
-			int const vp = vertical_position (j);
+			/* CR/LF down to this line, making sure that we don't put it on the same row as the last one */
+			int vp = vertical_position (j);
 
 			if (last_vp) {
+				vp = max (vp, last_vp.get() + 1);
 				for (int k = last_vp.get(); k < vp; ++k) {
 					text += "\x8A";
 				}
-- 
2.43.0


From 1ddebe24c99bc43933e7dd793a7981e18377b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 16/65] fix: ignore subtitles with no lines when writing binary
 STL.

They caused an assertion failure.
---
 src/stl_binary_writer.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 6d71670..241b954 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -29,6 +29,7 @@
 #include "sub_assert.h"
 #include <boost/locale.hpp>
 #include <boost/algorithm/string.hpp>
+#include <algorithm>
 #include <cmath>
 #include <fstream>
 #include <iomanip>
@@ -321,6 +322,12 @@ sub::write_stl_binary (
 	SUB_ASSERT (editor_name.size() <= 32);
 	SUB_ASSERT (editor_contact_details.size() <= 32);
 
+	/* There is nothing to write for any subtitles with no lines */
+	subtitles.erase (
+		std::remove_if(subtitles.begin(), subtitles.end(), [](Subtitle const& s) { return s.lines.empty(); }),
+		subtitles.end()
+		);
+
 	char buffer[1024];
 	memset (buffer, 0, 1024);
 	STLBinaryTables tables;
-- 
2.43.0


From 42b5641746c61d76e0b5b09d535fa44a244c1614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 17/65] fix: write valid timecodes to binary STL files.

A time could be rounded up to a frame number equal to the frame rate, and frames
were counted at the rate passed in even if some other one was put in the header.
---
 src/stl_binary_writer.cc | 36 ++++++++++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 241b954..d9f363c 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -147,6 +147,27 @@ vertical_position (sub::Line const & line)
 	return vp;
 }
 
+/** @param p Place to write 4-byte timecode.
+ *  @param t Time to write.
+ *  @param frame_rate Number of frames in each second of timecode.
+ */
+static void
+put_timecode (char* p, Time t, int frame_rate)
+{
+	int seconds = t.hours() * 3600 + t.minutes() * 60 + t.seconds();
+	int frames = t.frames_at (Rational (frame_rate, 1));
+	if (frames >= frame_rate) {
+		/* We rounded up to the start of the next second */
+		++seconds;
+		frames = 0;
+	}
+
+	put_int_as_int (p + 0, seconds / 3600, 1);
+	put_int_as_int (p + 1, (seconds / 60) % 60, 1);
+	put_int_as_int (p + 2, seconds % 60, 1);
+	put_int_as_int (p + 3, frames, 1);
+}
+
 vector<char*>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
@@ -156,6 +177,11 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 	/* Buffer to build the TTI blocks in */
 	char buffer[tti_size];
 
+	/* Timecodes must use the frame rate that we will declare in the DFC, which may not be frames_per_second
+	   as only some rates are supported.
+	*/
+	int const frame_rate = lrint (stl_dfc_to_frame_rate (stl_frame_rate_to_dfc (frames_per_second)));
+
 	for (auto const& i: subtitles) {
 
 		/* Find the top vertical position of this subtitle */
@@ -233,15 +259,9 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Cumulative status */
 		put_int_as_int (buffer + 4, tables.cumulative_status_enum_to_file (CUMULATIVE_STATUS_NOT_CUMULATIVE), 1);
 		/* Time code in */
-		put_int_as_int (buffer + 5, i.from.hours(), 1);
-		put_int_as_int (buffer + 6, i.from.minutes(), 1);
-		put_int_as_int (buffer + 7, i.from.seconds(), 1);
-		put_int_as_int (buffer + 8, i.from.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 5, i.from, frame_rate);
 		/* Time code out */
-		put_int_as_int (buffer + 9, i.to.hours(), 1);
-		put_int_as_int (buffer + 10, i.to.minutes(), 1);
-		put_int_as_int (buffer + 11, i.to.seconds(), 1);
-		put_int_as_int (buffer + 12, i.to.frames_at(sub::Rational(frames_per_second * 1000, 1000)), 1);
+		put_timecode (buffer + 9, i.to, frame_rate);
 		/* Vertical position */
 		put_int_as_int (buffer + 13, top.get(), 1);
 
-- 
2.43.0


From 14531fad903d3e239ff4d9f74b04dcb16071c552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 18/65] fix: use 24 frames per second for timecodes in
 23.976fps binary STL files.

The rate was truncated to 23, so frame 23 was the same as the next second.
---
 src/stl_binary_reader.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 7b38065..cc25857 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -25,6 +25,7 @@
 #include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
+#include <cmath>
 #include <iostream>
 
 using std::map;
@@ -210,8 +211,8 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, frame_rate);
-			sub.to = reader->get_timecode(9, frame_rate);
+			sub.from = reader->get_timecode(5, lrint(frame_rate));
+			sub.to = reader->get_timecode(9, lrint(frame_rate));
 			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
 			 * is wrong if the EBN of this TTI block is not 255 (I think).
 			 */
-- 
2.43.0


From 72f67fed46200e818eeb5f03cc70953e2314b3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 19/65] fix: write maximum number of characters per row
 correctly to binary STL.

It was counted in bytes, and values over 99 did not fit into the field.
---
 src/stl_binary_writer.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index d9f363c..a751965 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -360,7 +360,7 @@ sub::write_stl_binary (
 		for (auto const& j: i.lines) {
 			int t = 0;
 			for (auto const& k: j.blocks) {
-				t += k.text.size ();
+				t += utf_to_utf<wchar_t> (k.text).size ();
 			}
 			longest = std::max (longest, t);
 		}
@@ -395,7 +395,7 @@ sub::write_stl_binary (
 	/* Total number of subtitle groups */
 	put_string (buffer + 248, "001");
 	/* Maximum number of displayable characters in any text row */
-	put_int_as_string (buffer + 251, longest, 2);
+	put_int_as_string (buffer + 251, std::min(longest, 99), 2);
 	/* Maximum number of displayable rows */
 	put_int_as_string (buffer + 253, ROWS, 2);
 	/* Time code status */
-- 
2.43.0


From 19498d818849e22173d3d799c28b2148e80d368c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 20/65] fix: do not write binary STL files which have too many
 blocks for the header.

---
 src/stl_binary_writer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index a751965..52dccd9 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -26,6 +26,7 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
+#include "exceptions.h"
 #include "sub_assert.h"
 #include <boost/locale.hpp>
 #include <boost/algorithm/string.hpp>
@@ -368,6 +369,13 @@ sub::write_stl_binary (
 
 	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
 
+	if (tti_blocks.size() > 99999) {
+		for (auto i: tti_blocks) {
+			delete[] i;
+		}
+		throw STLError ("Too many subtitles to write to a binary STL file");
+	}
+
 	/* Code page: 850 */
 	put_string (buffer + 0, "850");
 	/* Disk format code */
-- 
2.43.0


From 8410bf8377d2c239ecb4f8d1f5da1cbc88a5f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 21/65] fix: report failure to write a binary STL file.

---
 src/stl_binary_writer.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 52dccd9..13d3199 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -427,4 +427,9 @@ sub::write_stl_binary (
 		output.write (i, 128);
 		delete[] i;
 	}
+
+	output.close ();
+	if (!output) {
+		throw STLError (String::compose ("Could not write binary STL file %1", file_name.string()));
+	}
 }
-- 
2.43.0


From afd65b074b4ebb72320e2d63807845a9cffd5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 22/65] fix: close SubRip file if there is an error when
 reading it.

---
 src/reader_factory.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 282f14b..2eb68d4 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -53,9 +53,8 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".srt") {
 		FILE* f = fopen (file_name.string().c_str(), "r");
 		SUB_ASSERT (f);
-		shared_ptr<Reader> r (new SubripReader(f));
-		fclose (f);
-		return r;
+		shared_ptr<FILE> closer (f, fclose);
+		return shared_ptr<Reader> (new SubripReader(f));
 	}
 
 	return shared_ptr<Reader> ();
-- 
2.43.0


From 587fa77805cdf4332800de17065a4939e718e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:47 +0000
Subject: [PATCH 23/65] fix: use white as the default colour for SSA styles.

Colours are represented as values between 0 and 1.
---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 1302b6b..7459043 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -81,7 +81,7 @@ class Style
 public:
 	Style ()
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
@@ -92,7 +92,7 @@ public:
 
 	Style (string format_line, string style_line)
 		: font_size (72)
-		, primary_colour (255, 255, 255)
+		, primary_colour (1, 1, 1)
 		, bold (false)
 		, italic (false)
 		, underline (false)
-- 
2.43.0


From 62faf98fcc352bd214d205ad33a30a29b44b9233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 24/65] fix: treat SSA margins like 0000 as zero.

They should not then override the margin from the style.
---
 src/ssa_reader.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 7459043..d48b0e3 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -552,16 +552,16 @@ SSAReader::read (function<optional<string> ()> get_line)
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (event[i] != "0" && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
 							/* Override the style if its non-zero */
 							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
 						}
 					} else if (event_format[i] == "MarginL") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							left_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "MarginR") {
-						if (event[i] != "0") {
+						if (raw_convert<int>(event[i]) != 0) {
 							right_margin = raw_convert<int>(event[i]);
 						}
 					} else if (event_format[i] == "Text") {
-- 
2.43.0


From 352e801e17c59f86babdb61f7717ac317ad04486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 25/65] fix: do not confuse SSA tags \clip and \fscx, \fscy,
 \fsp with \c and \fs.

---
 src/ssa_reader.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index d48b0e3..07d65b4 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -283,10 +283,10 @@ SSAReader::parse_tag(RawSubtitle& sub, string tag, Context const& context)
 		sub.horizontal_position.proportional = raw_convert<float>(bits[1]) / context.play_res_x;
 		sub.vertical_position.reference = sub::TOP_OF_SCREEN;
 		sub.vertical_position.proportional = raw_convert<float>(bits[2]) / context.play_res_y;
-	} else if (boost::starts_with(tag, "\\fs")) {
+	} else if (boost::starts_with(tag, "\\fs") && !boost::starts_with(tag, "\\fsc") && !boost::starts_with(tag, "\\fsp")) {
 		SUB_ASSERT (tag.length() > 3);
 		sub.font_size.set_proportional(raw_convert<float>(tag.substr(3)) / context.play_res_y);
-	} else if (boost::starts_with(tag, "\\c")) {
+	} else if (boost::starts_with(tag, "\\c") && !boost::starts_with(tag, "\\clip")) {
 		/* \c&Hbbggrr& */
 		if (tag.length() > 2) {
 			sub.colour = h_colour(tag.substr(2, tag.length() - 3));
-- 
2.43.0


From 227de5140f097f69c0da1a3f7537e0dd705c5e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 26/65] fix: ignore unknown sections in SSA files.

The embedded font and image data in [Fonts] and [Graphics] caused an error.
---
 src/ssa_reader.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 07d65b4..cfd86c7 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -430,7 +430,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 	enum {
 		INFO,
 		STYLES,
-		EVENTS
+		EVENTS,
+		OTHER
 	} part = INFO;
 
 	int play_res_x = 288;
@@ -460,10 +461,17 @@ SSAReader::read (function<optional<string> ()> get_line)
 				part = STYLES;
 			} else if (line.get() == "[Events]") {
 				part = EVENTS;
+			} else {
+				part = OTHER;
 			}
 			continue;
 		}
 
+		if (part == OTHER) {
+			/* This might be e.g. fonts or graphics, which we don't understand */
+			continue;
+		}
+
 		size_t const colon = line->find (":");
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
@@ -471,6 +479,8 @@ SSAReader::read (function<optional<string> ()> get_line)
 		trim (body);
 
 		switch (part) {
+		case OTHER:
+			break;
 		case INFO:
 			if (type == "PlayResX") {
 				play_res_x = raw_convert<int> (body);
-- 
2.43.0


From a59b9c55389bebe7be17fca37d137db82f955069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:21 +0000
Subject: [PATCH 27/65] fix: do not crash when asked for the position of a line
 on a screen of unknown height.

---
 src/vertical_position.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index aca327f..c4bd796 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -29,6 +29,11 @@ VerticalPosition::fraction_from_screen_top () const
 		return 0;
 	}
 
+	if (!proportional && !lines) {
+		/* We don't know how big a line is */
+		return 0;
+	}
+
 	float const prop = proportional ? proportional.get() : (float (line.get()) / lines.get ());
 
 	switch (reference.get ()) {
-- 
2.43.0


From e876fa05619ff35048781e2a8ed6e8493efb0765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:50 +0000
Subject: [PATCH 28/65] fix: join the text of TTI extension blocks when reading
 binary STL.

Each block was treated as a separate subtitle at the same position, so text which
was split between blocks lost its italics, its place in the lines and any
diacritical which was at the end of a block.
---
 src/stl_binary_reader.cc | 60 ++++++++++++++++++++++++++++++++--------
 1 file changed, 49 insertions(+), 11 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index cc25857..5407b0a 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -188,7 +188,20 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	editor_name = reader->get_string(309, 32);
 	editor_contact_details = reader->get_string(341, 32);
 
-	int highest_line = 0;
+	struct TTI
+	{
+		int subtitle_number;
+		/** true if this subtitle's text continues in the next (extension) block */
+		bool more;
+		Time from;
+		Time to;
+		int vertical_position;
+		int justification;
+		string text;
+	};
+
+	/* Read TTI blocks, joining the text of any extension blocks to that of the subtitle that they extend */
+	vector<TTI> ttis;
 	for (int i = 0; i < tti_blocks; ++i) {
 
 		reader->read (128, "TTI");
@@ -197,11 +210,40 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			continue;
 		}
 
-		string const whole = reader->get_string(16, 112);
+		int const extension_block_number = reader->get_int(3, 1);
+		if (extension_block_number == 0xfe) {
+			/* User data */
+			continue;
+		}
+
+		TTI tti;
+		tti.subtitle_number = reader->get_int(1, 2);
+		tti.more = extension_block_number != 0xff;
+		tti.from = reader->get_timecode(5, lrint(frame_rate));
+		tti.to = reader->get_timecode(9, lrint(frame_rate));
+		tti.vertical_position = reader->get_int(13, 1);
+		tti.justification = reader->get_int(14, 1);
+		tti.text = reader->get_string(16, 112);
+
+		if (
+			!ttis.empty() && ttis.back().more &&
+			ttis.back().subtitle_number == tti.subtitle_number && ttis.back().from == tti.from && ttis.back().to == tti.to
+		   ) {
+			/* Everything in this block except the text should be ignored (spec page 10) */
+			trim_right_if (ttis.back().text, is_any_of("\x8f"));
+			ttis.back().text += tti.text;
+			ttis.back().more = tti.more;
+		} else {
+			ttis.push_back (tti);
+		}
+	}
+
+	int highest_line = 0;
+	for (auto const& tti: ttis) {
 
 		/* Split the text up into lines (8Ah is a new line) */
 		vector<string> lines;
-		split (lines, whole, is_any_of ("\x8a"));
+		split (lines, tti.text, is_any_of ("\x8a"));
 
 		/* Italic / underline specifications can span lines, so we need to track them
 		   outside the lines loop.
@@ -211,12 +253,9 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 
 		for (size_t j = 0; j < lines.size(); ++j) {
 			RawSubtitle sub;
-			sub.from = reader->get_timecode(5, lrint(frame_rate));
-			sub.to = reader->get_timecode(9, lrint(frame_rate));
-			/* XXX: vertical position of TTI extension blocks should be ignored (spec page 10) so this
-			 * is wrong if the EBN of this TTI block is not 255 (I think).
-			 */
-			sub.vertical_position.line = reader->get_int(13, 1) + j;
+			sub.from = tti.from;
+			sub.to = tti.to;
+			sub.vertical_position.line = tti.vertical_position + j;
 			highest_line = std::max(highest_line, *sub.vertical_position.line);
 			sub.vertical_position.lines = maximum_rows;
 			sub.vertical_position.reference = TOP_OF_SCREEN;
@@ -224,8 +263,7 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 			sub.underline = underline;
 
 			/* XXX: not sure what to do with JC = 0, "unchanged presentation" */
-			int const h = reader->get_int(14, 1);
-			switch (h) {
+			switch (tti.justification) {
 			case 0:
 			case 2:
 				sub.horizontal_position.reference = HORIZONTAL_CENTRE_OF_SCREEN;
-- 
2.43.0


From d176da448ac62a7eda923f542401ced1d810731a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 29/65] fix: apply SSA tags in SubRip files to the text that
 follows them.

They were also applied to the text before them on the same line, and blocks
with more than one tag were ignored.
---
 src/subrip_reader.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 30e1544..56a4c29 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -304,13 +304,20 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			}
 			p.colour = _colours.empty() ? Colour(1, 1, 1) : _colours.back();
 		} else if (has_next(t, i, "{\\")) {
+			maybe_content (p);
+			SSAReader::Context const context{288, 288, Colour(1, 1, 1)};
 			string ssa = "\\";
 			while (i < t.size() && t[i] != '}') {
+				if (t[i] == '\\') {
+					/* There is another tag in the same block */
+					SSAReader::parse_tag(p, ssa, context);
+					ssa.clear();
+				}
 				ssa += t[i];
 				++i;
 			}
 			++i;
-			SSAReader::parse_tag(p, ssa, SSAReader::Context{288, 288, Colour(1, 1, 1)});
+			SSAReader::parse_tag(p, ssa, context);
 		} else {
 			p.text += t[i];
 			++i;
-- 
2.43.0


From 1c6c60a1769c2d1d5664fa3378030e08eeec7b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:25 +0000
Subject: [PATCH 30/65] fix: strip U+202B from all text in SubRip files.

It was left in any text that had a tag after it.
---
 src/subrip_reader.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 56a4c29..3f57861 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -226,6 +226,11 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 void
 SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 {
+	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
+	   as a missing character.  This may be a hack.
+	*/
+	replace_all (t, "\xe2\x80\xab", "");
+
 	auto has_next = [](string line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
@@ -324,11 +329,6 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 		}
 	}
 
-	/* Strip Unicode U+202B (right-to-left embedding) as sometimes it is rendered
-	   as a missing character.  This may be a hack.
-	*/
-	replace_all (p.text, "\xe2\x80\xab", "");
-
 	maybe_content (p);
 }
 
-- 
2.43.0


From 3770cdff616bc75899fd9a3e9f268f15c17aeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 31/65] fix: apply margins of an SSA event whatever the order
 of its fields

A margin that came before the style in the Format line was overwritten by that
of the style.
---
 src/ssa_reader.cc | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index cfd86c7..ba81792 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -524,6 +524,10 @@ SSAReader::read (function<optional<string> ()> get_line)
 				optional<Style> style;
 				int left_margin = 0;
 				int right_margin = 0;
+				/* Margins from the event which, if they are non-zero, override those of the style wherever that is given */
+				float event_vertical_margin = 0;
+				int event_left_margin = 0;
+				int event_right_margin = 0;
 
 				for (size_t i = 0; i < event.size(); ++i) {
 					trim (event[i]);
@@ -562,19 +566,21 @@ SSAReader::read (function<optional<string> ()> get_line)
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
-						if (raw_convert<float>(event[i]) != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							/* Override the style if its non-zero */
-							sub.vertical_position.proportional = raw_convert<float>(event[i]) / play_res_y;
-						}
+						event_vertical_margin = raw_convert<float>(event[i]);
 					} else if (event_format[i] == "MarginL") {
-						if (raw_convert<int>(event[i]) != 0) {
-							left_margin = raw_convert<int>(event[i]);
-						}
+						event_left_margin = raw_convert<int>(event[i]);
 					} else if (event_format[i] == "MarginR") {
-						if (raw_convert<int>(event[i]) != 0) {
-							right_margin = raw_convert<int>(event[i]);
-						}
+						event_right_margin = raw_convert<int>(event[i]);
 					} else if (event_format[i] == "Text") {
+						if (event_vertical_margin != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+							sub.vertical_position.proportional = event_vertical_margin / play_res_y;
+						}
+						if (event_left_margin != 0) {
+							left_margin = event_left_margin;
+						}
+						if (event_right_margin != 0) {
+							right_margin = event_right_margin;
+						}
 						auto context = Context(play_res_x, play_res_y, style ? style->primary_colour : Colour(1, 1, 1), left_margin, right_margin);
 						for (auto j: parse_line(sub, event[i], context)) {
 							_subs.push_back (j);
-- 
2.43.0


From 84633015bc8d85fcb130608c4ef2a9a556bb7f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 32/65] fix: keep the vertical margin of an SSA event whose
 style is vertically centred

It does not affect centred text, but {\an} can move the text to the top or bottom.
---
 src/ssa_reader.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index ba81792..b861852 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -560,9 +560,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 						sub.effect = style->effect;
 						sub.horizontal_position.reference = style->horizontal_reference;
 						sub.vertical_position.reference = style->vertical_reference;
-						if (sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
-							sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
-						}
+						sub.vertical_position.proportional = float(style->vertical_margin) / play_res_y;
 						left_margin = style->left_margin;
 						right_margin = style->right_margin;
 					} else if (event_format[i] == "MarginV") {
@@ -572,7 +570,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 					} else if (event_format[i] == "MarginR") {
 						event_right_margin = raw_convert<int>(event[i]);
 					} else if (event_format[i] == "Text") {
-						if (event_vertical_margin != 0 && sub.vertical_position.reference != sub::VERTICAL_CENTRE_OF_SCREEN) {
+						if (event_vertical_margin != 0) {
 							sub.vertical_position.proportional = event_vertical_margin / play_res_y;
 						}
 						if (event_left_margin != 0) {
-- 
2.43.0


From d842e99785b7dab30dfb2cac079697c48f1d4e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:19 +0000
Subject: [PATCH 33/65] fix: same error context whether a file is read from a
 string or a FILE

The lines after a bad time line had their line endings when read from a FILE.
---
 src/subrip_reader.cc  | 1 +
 src/web_vtt_reader.cc | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 3f57861..5dc7eaf 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -123,6 +123,7 @@ SubripReader::read (function<optional<string> ()> get_line)
 				for (int i = 0; i < 2; ++i) {
 					optional<string> ex = get_line ();
 					if (ex) {
+						trim_right_if(*ex, boost::is_any_of("\n\r"));
 						_context.push_back (*ex);
 					}
 				}
diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 2105743..365ea6c 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -104,6 +104,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 					for (int i = 0; i < 2; ++i) {
 						auto ex = get_line();
 						if (ex) {
+							trim_right_if(*ex, boost::is_any_of("\n\r"));
 							_context.push_back(*ex);
 						}
 					}
-- 
2.43.0


From bcf1068d78b6ec1c967a08fe3625a6d4c209a900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 34/65] fix: only take NOTE for the start of a WebVTT comment
 if it is a whole word

A cue whose identifier began with NOTE was lost.
---
 src/web_vtt_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 365ea6c..015333c 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -91,7 +91,7 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 			state = State::DATA;
 			break;
 		case State::DATA:
-			if (boost::starts_with(*line, "NOTE")) {
+			if (*line == "NOTE" || boost::starts_with(*line, "NOTE ") || boost::starts_with(*line, "NOTE\t")) {
 				state = State::NOTE;
 			} else if (line->find("-->") != string::npos) {
 				/* Further trim this line, removing spaces from the end */
-- 
2.43.0


From c88896cb579dc427367db470638712906a8f51f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:55 +0000
Subject: [PATCH 35/65] fix: accept any number of cue settings in WebVTT files

---
 src/web_vtt_reader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index 015333c..b84deb7 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -100,7 +100,8 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 				vector<string> parts;
 				boost::algorithm::split(parts, *line, boost::algorithm::is_any_of(" "), boost::token_compress_on);
 
-				if (parts.size() != 3 && parts.size() != 7) {
+				/* There can be any number of cue settings after the times */
+				if (parts.size() < 3) {
 					for (int i = 0; i < 2; ++i) {
 						auto ex = get_line();
 						if (ex) {
-- 
2.43.0


From c46d7e348a707ea5341ff61774dcd81efc6d11f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:05 +0000
Subject: [PATCH 36/65] fix: place text after a line break correctly if {\\an}
 follows the break

We don't know which way to count lines until the reference is known.
---
 src/ssa_reader.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index b861852..344debb 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -384,11 +384,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 					current.text = "";
 				}
 				/* Move down one line (1.2 times the font size) */
-				if (current.vertical_position.reference.get() == BOTTOM_OF_SCREEN) {
-					current.vertical_position.proportional = current.vertical_position.proportional.get() - line_size;
-				} else {
-					current.vertical_position.proportional = current.vertical_position.proportional.get() + line_size;
-				}
+				current.vertical_position.proportional = current.vertical_position.proportional.get() + line_size;
 			}
 			state = TEXT;
 			break;
@@ -414,9 +410,9 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		case BOTTOM_OF_SCREEN:
 			/* Re-add margins and account for each line */
 			sub.vertical_position.proportional =
-				sub.vertical_position.proportional.get()
-				+ base.vertical_position.proportional.get_value_or(0)
-				+ line_breaks * line_size;
+				base.vertical_position.proportional.get_value_or(0)
+				+ line_breaks * line_size
+				- sub.vertical_position.proportional.get();
 			break;
 		}
 	}
-- 
2.43.0


From f647673fec7ed330b798b4a4871bc5277f2f1e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:12 +0000
Subject: [PATCH 37/65] fix: skip text STL lines whose times are not numbers,
 as for other unrecognised lines

---
 src/stl_text_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index c7643f8..dac1b7b 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -138,7 +138,12 @@ STLTextReader::time (string t) const
 		return optional<Time> ();
 	}
 
-	return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	try {
+		return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+	} catch (boost::bad_lexical_cast &) {
+		warn (String::compose ("Unrecognised time %1", t));
+		return optional<Time> ();
+	}
 }
 
 void
-- 
2.43.0


From dfc870c73d28532ec09194173a91396755cdd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:12 +0000
Subject: [PATCH 38/65] fix: skip unrecognised font sizes in text STL files, as
 for other unrecognised lines

---
 src/stl_text_reader.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index dac1b7b..c1d2d69 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -158,7 +158,11 @@ STLTextReader::set (string name, string value)
 	} else if (name == "$Underlined") {
 		_subtitle.underline = value == "True";
 	} else if (name == "$FontSize") {
-		_subtitle.font_size.set_points (lexical_cast<int> (value));
+		try {
+			_subtitle.font_size.set_points (lexical_cast<int> (value));
+		} catch (boost::bad_lexical_cast &) {
+			warn (String::compose ("Unrecognised font size %1", value));
+		}
 	}
 }
 
-- 
2.43.0


From 1e8717c6be90fc597a87ef3c0ca2d70b7a4a8ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 39/65] fix: use U+0328 for the combining ogonek in ISO 6937

U+032B is a combining inverted double arch below.
---
 src/iso6937.py        | 2 +-
 src/iso6937_tables.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/iso6937.py b/src/iso6937.py
index f1e6c56..bdb3e16 100644
--- a/src/iso6937.py
+++ b/src/iso6937.py
@@ -180,7 +180,7 @@ print("\tmain[200U] = 0x0308;", file=output_c)
 print("\tmain[202U] = 0x030A;", file=output_c)
 print("\tmain[203U] = 0x0327;", file=output_c)
 print("\tmain[205U] = 0x030B;", file=output_c)
-print("\tmain[206U] = 0x032B;", file=output_c)
+print("\tmain[206U] = 0x0328;", file=output_c)
 print("\tmain[207U] = 0x030C;", file=output_c)
 print("\tmain[208U] = 0x2015;", file=output_c)
 print("\tmain[209U] = 0x00B9;", file=output_c)
diff --git a/src/iso6937_tables.cc b/src/iso6937_tables.cc
index 628557f..c335c3e 100644
--- a/src/iso6937_tables.cc
+++ b/src/iso6937_tables.cc
@@ -350,7 +350,7 @@ sub::make_iso6937_tables ()
 	main[202U] = 0x030A;
 	main[203U] = 0x0327;
 	main[205U] = 0x030B;
-	main[206U] = 0x032B;
+	main[206U] = 0x0328;
 	main[207U] = 0x030C;
 	main[208U] = 0x2015;
 	main[209U] = 0x00B9;
-- 
2.43.0


From 06480a0003245e373e5eef99e6751d453daff8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:30 +0000
Subject: [PATCH 40/65] fix: convert g with cedilla to and from ISO 6937

It is a letter of Latvian, and was lost from text.
---
 src/iso6937.py        | 2 +-
 src/iso6937_tables.cc | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/iso6937.py b/src/iso6937.py
index bdb3e16..6d3d89f 100644
--- a/src/iso6937.py
+++ b/src/iso6937.py
@@ -103,7 +103,7 @@ groups = [
     (0xC7, 'DOT ABOVE', 'dot', 'CEGIZcegz'),
     (0xC8, 'DIAERESIS', 'diaeresis', 'AEIOUYaeiouy'),
     (0xCA, 'RING ABOVE', 'ring', 'AUau'),
-    (0xCB, 'CEDILLA', 'cedilla', 'CGKLNRSTcklnrst'),
+    (0xCB, 'CEDILLA', 'cedilla', 'CGKLNRSTcgklnrst'),
     (0xCD, 'DOUBLE ACUTE', 'double_acute', 'OUou'),
     (0xCE, 'OGONEK', 'ogonek', 'AEIUaeui'),
     (0xCF, 'CARON', 'caron', 'CDELNRSTZcdelnrstz')
diff --git a/src/iso6937_tables.cc b/src/iso6937_tables.cc
index c335c3e..eb32368 100644
--- a/src/iso6937_tables.cc
+++ b/src/iso6937_tables.cc
@@ -173,6 +173,7 @@ sub::make_iso6937_tables ()
 	cedilla['S'] = 0x015E;
 	cedilla['T'] = 0x0162;
 	cedilla['c'] = 0x00E7;
+	cedilla['g'] = 0x0123;
 	cedilla['k'] = 0x0137;
 	cedilla['l'] = 0x013C;
 	cedilla['n'] = 0x0146;
-- 
2.43.0


From 05bdb331cb0c815b826aff9aaa59a16c0f6a7baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 41/65] fix: report the frame rate of 23.976fps binary STL
 files correctly.

It was truncated to 23, both in frame_rate / metadata() and when working out
times, so that frame 23 was the same as the next second.  Also make the
metadata independent of the current locale.
---
 src/stl_binary_reader.cc | 34 +++++++++++++++++++++++-----------
 src/stl_binary_reader.h  |  2 +-
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/stl_binary_reader.cc b/src/stl_binary_reader.cc
index 5407b0a..bb8a1fb 100644
--- a/src/stl_binary_reader.cc
+++ b/src/stl_binary_reader.cc
@@ -22,18 +22,19 @@
 #include "iso6937.h"
 #include "stl_util.h"
 #include "compose.hpp"
-#include <boost/lexical_cast.hpp>
 #include <boost/algorithm/string.hpp>
 #include <boost/locale.hpp>
 #include <cmath>
 #include <iostream>
+#include <locale>
+#include <sstream>
 
 using std::map;
 using std::vector;
 using std::cout;
 using std::string;
+using std::stringstream;
 using std::istream;
-using boost::lexical_cast;
 using boost::algorithm::replace_all;
 using boost::is_any_of;
 using boost::locale::conv::utf_to_utf;
@@ -366,13 +367,24 @@ void STLBinaryReader::read (shared_ptr<InputReader> reader)
 	}
 }
 
+/** @return v as a string, whatever the current locale is */
+template <class T>
+static string
+number_to_string (T v)
+{
+	stringstream s;
+	s.imbue (std::locale::classic());
+	s << v;
+	return s.str ();
+}
+
 map<string, string>
 STLBinaryReader::metadata () const
 {
 	map<string, string> m;
 
-	m["Code page number"] = lexical_cast<string> (code_page_number);
-	m["Frame rate"] = lexical_cast<string> (frame_rate);
+	m["Code page number"] = number_to_string (code_page_number);
+	m["Frame rate"] = number_to_string (frame_rate);
 	m["Display standard"] = _tables.display_standard_enum_to_description (display_standard);
 	m["Language group"] = _tables.language_group_enum_to_description (language_group);
 	m["Language"] = _tables.language_enum_to_description (language);
@@ -386,16 +398,16 @@ STLBinaryReader::metadata () const
 	m["Creation date"] = creation_date;
 	m["Revision date"] = revision_date;
 	m["Revision number"] = revision_number;
-	m["TTI blocks"] = lexical_cast<string> (tti_blocks);
-	m["Number of subtitles"] = lexical_cast<string> (number_of_subtitles);
-	m["Subtitle groups"] = lexical_cast<string> (subtitle_groups);
-	m["Maximum characters"] = lexical_cast<string> (maximum_characters);
-	m["Maximum rows"] = lexical_cast<string> (maximum_rows);
+	m["TTI blocks"] = number_to_string (tti_blocks);
+	m["Number of subtitles"] = number_to_string (number_of_subtitles);
+	m["Subtitle groups"] = number_to_string (subtitle_groups);
+	m["Maximum characters"] = number_to_string (maximum_characters);
+	m["Maximum rows"] = number_to_string (maximum_rows);
 	m["Timecode status"] = _tables.timecode_status_enum_to_description (timecode_status);
 	m["Start of programme"] = start_of_programme;
 	m["First in cue"] = first_in_cue;
-	m["Disks"] = lexical_cast<string> (disks);
-	m["Disk sequence number"] = lexical_cast<string> (disk_sequence_number);
+	m["Disks"] = number_to_string (disks);
+	m["Disk sequence number"] = number_to_string (disk_sequence_number);
 	m["Country of origin"] = country_of_origin;
 	m["Publisher"] = publisher;
 	m["Editor name"] = editor_name;
diff --git a/src/stl_binary_reader.h b/src/stl_binary_reader.h
index 75e328a..8bac607 100644
--- a/src/stl_binary_reader.h
+++ b/src/stl_binary_reader.h
@@ -41,7 +41,7 @@ public:
 	std::map<std::string, std::string> metadata () const override;
 
 	int code_page_number;
-	int frame_rate;
+	float frame_rate;
 	DisplayStandard display_standard;
 	LanguageGroup language_group;
 	Language language;
-- 
2.43.0


From 9893005a662ed4b8710449920f582a25a29bd12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:01 +0000
Subject: [PATCH 42/65] fix: do not write subtitles which are too long to a
 binary STL file.

Extension block numbers past 0xef are reserved or mean something else (0xfe is user data)
so the rest of the text would be lost.
---
 src/stl_binary_writer.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 13d3199..60ecd27 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -285,6 +285,14 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 
 		/* Now make as many blocks as are needed to add all the text */
 		size_t const block_size = 112;
+		/* Extension blocks can be numbered from 0 to 0xef, with 0xff for the last */
+		size_t const max_blocks = 0xf1;
+		if (text.length() > block_size * max_blocks) {
+			for (auto j: tti) {
+				delete[] j;
+			}
+			throw STLError ("Subtitle is too long to write to a binary STL file");
+		}
 		size_t offset = 0;
 		int block_number = 0;
 		while (offset < text.length()) {
-- 
2.43.0


From 92fcb5ad777bec3825baac4760eaf7132899c460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 43/65] fix: avoid overflow in Time::frames_at with rates that
 have large terms

---
 src/sub_time.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 7085d68..5af3974 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -135,7 +135,7 @@ Time::frames_at (Rational rate) const
 		throw UnknownFrameRateError ();
 	}
 
-	return rint (double (_frames) * _rate.get().denominator * rate.numerator / (_rate.get().numerator * rate.denominator));
+	return rint (double (_frames) * _rate.get().denominator * rate.numerator / (double (_rate.get().numerator) * rate.denominator));
 }
 
 int
-- 
2.43.0


From 19bd9c99b67cac41a57862dc3615b2994235bcf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:11 +0000
Subject: [PATCH 44/65] fix: do not round to milliseconds in
 Time::all_as_seconds

Time::add and Time::scale use it, so they were wrong with high frame rates.
---
 src/sub_time.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sub_time.cc b/src/sub_time.cc
index 5af3974..cdfbd5b 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -170,7 +170,11 @@ Time::from_frames (int f, Rational rate)
 double
 Time::all_as_seconds () const
 {
-	return _seconds + double(milliseconds()) / 1000;
+	if (!_rate) {
+		throw UnknownFrameRateError ();
+	}
+
+	return _seconds + double (_frames) * _rate.get().denominator / _rate.get().numerator;
 }
 
 /** Add a time to this one.  Both *this and t must have a specified _rate */
-- 
2.43.0


From 705b6eb6aafe5d59b785203d2fcc857d4d1d7787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:17 +0000
Subject: [PATCH 45/65] fix: round to the nearest point in FontSize::points

Truncation meant that e.g. 13 points on a screen of 22 became 12 when converted to a
proportion and back.
---
 src/font_size.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/font_size.cc b/src/font_size.cc
index 00a74cf..58710df 100644
--- a/src/font_size.cc
+++ b/src/font_size.cc
@@ -18,6 +18,7 @@
 */
 
 #include "font_size.h"
+#include <cmath>
 
 using namespace sub;
 
@@ -38,7 +39,7 @@ FontSize::points (int screen_height_in_points) const
 		return _points.get ();
 	}
 
-	return _proportional.get() * screen_height_in_points;
+	return lrint (_proportional.get() * screen_height_in_points);
 }
 
 FontSize
-- 
2.43.0


From b56bf9fea8b671fa281d242db9156e9ec5b7dc00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:40 +0000
Subject: [PATCH 46/65] fix: ignore a byte order mark at the start of text STL
 files

---
 src/stl_text_reader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index c1d2d69..2334737 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -18,6 +18,7 @@
 */
 
 #include "stl_text_reader.h"
+#include "util.h"
 #include "compose.hpp"
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
@@ -44,8 +45,11 @@ STLTextReader::STLTextReader (istream& in)
 	_subtitle.vertical_position.line = 0;
 	_subtitle.vertical_position.reference = TOP_OF_SUBTITLE;
 
-	string line;
-	while (getline (in, line)) {
+	string raw_line;
+	while (getline (in, raw_line)) {
+		optional<string> without_bom = raw_line;
+		remove_unicode_bom (without_bom);
+		string line = *without_bom;
 		trim (line);
 
 		if (starts_with (line, "//")) {
-- 
2.43.0


From 7cdb73afca7cea956af89e648d0b525b45298ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:13 +0000
Subject: [PATCH 47/65] fix: reject an empty WebVTT file, as for any other with
 no header

---
 src/web_vtt_reader.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index b84deb7..ccc4349 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -153,5 +153,10 @@ WebVTTReader::read(std::function<optional<string> ()> get_line)
 		}
 
 	}
+
+	if (state == State::HEADER) {
+		/* The file is empty */
+		throw WebVTTHeaderError();
+	}
 }
 
-- 
2.43.0


From e8f833554d4240db61ab88870576d85f157aa486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 48/65] fix: do not copy the whole line for each of its
 characters in SubripReader

---
 src/subrip_reader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 5dc7eaf..784242e 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -232,7 +232,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 	*/
 	replace_all (t, "\xe2\x80\xab", "");
 
-	auto has_next = [](string line, size_t& index, string s) {
+	auto has_next = [](string const& line, size_t& index, string s) {
 		boost::to_lower(s);
 		auto next = line.substr(index, s.size());
 		boost::to_lower(next);
-- 
2.43.0


From 2cdc34d68ccd25460ab58d6b699d2970e6f692e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 49/65] fix: do not move the rest of the text for every line of
 it that is read from a string

---
 src/ssa_reader.cc     |  3 ++-
 src/subrip_reader.cc  |  3 ++-
 src/util.cc           | 16 ++++++++--------
 src/util.h            |  2 +-
 src/web_vtt_reader.cc |  3 ++-
 5 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 344debb..354459e 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -44,7 +44,8 @@ using namespace sub;
 /** @param s Subtitle string encoded in UTF-8 */
 SSAReader::SSAReader (string s)
 {
-	this->read (boost::bind(&get_line_string, &s));
+	size_t pos = 0;
+	this->read (boost::bind(&get_line_string, &s, &pos));
 }
 
 /** @param f Subtitle file encoded in UTF-8 */
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 784242e..8e50d9b 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -53,7 +53,8 @@ using namespace sub;
 /** @param s Subtitle string encoded in UTF-8 */
 SubripReader::SubripReader (string s)
 {
-	this->read (boost::bind(&get_line_string, &s));
+	size_t pos = 0;
+	this->read (boost::bind(&get_line_string, &s, &pos));
 }
 
 /** @param f Subtitle file encoded in UTF-8 */
diff --git a/src/util.cc b/src/util.cc
index 08bddf7..be16178 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -52,21 +52,21 @@ sub::empty_or_white_space (string s)
 }
 
 optional<string>
-sub::get_line_string (string* s)
+sub::get_line_string (string const * s, size_t* pos)
 {
-	if (s->length() == 0) {
+	if (*pos >= s->length()) {
 		return optional<string>();
 	}
 
-	size_t pos = s->find ("\n");
-	if (pos == string::npos) {
-		string const c = *s;
-		*s = "";
+	size_t const end = s->find ("\n", *pos);
+	if (end == string::npos) {
+		string const c = s->substr (*pos);
+		*pos = s->length ();
 		return c;
 	}
 
-	string const c = s->substr (0, pos);
-	s->erase (0, pos + 1);
+	string const c = s->substr (*pos, end - *pos);
+	*pos = end + 1;
 	return c;
 }
 
diff --git a/src/util.h b/src/util.h
index 28da387..e83e896 100644
--- a/src/util.h
+++ b/src/util.h
@@ -34,7 +34,7 @@ class Reader;
 extern bool empty_or_white_space (std::string s);
 extern void remove_unicode_bom (boost::optional<std::string>& line);
 extern boost::optional<std::string> get_line_file (FILE* f);
-extern boost::optional<std::string> get_line_string (std::string* s);
+extern boost::optional<std::string> get_line_string (std::string const * s, size_t* pos);
 extern void dump (std::shared_ptr<const Reader> read, std::ostream& os);
 
 }
diff --git a/src/web_vtt_reader.cc b/src/web_vtt_reader.cc
index ccc4349..cd83616 100644
--- a/src/web_vtt_reader.cc
+++ b/src/web_vtt_reader.cc
@@ -45,7 +45,8 @@ WebVTTReader::WebVTTReader(FILE* file)
 
 WebVTTReader::WebVTTReader(string subs)
 {
-	this->read(boost::bind(&get_line_string, &subs));
+	size_t pos = 0;
+	this->read(boost::bind(&get_line_string, &subs, &pos));
 }
 
 
-- 
2.43.0


From 9f7afbae411276b63a3227bfd046a9e5dc6a97ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:58 +0000
Subject: [PATCH 50/65] fix: do not copy the text of an SSA event for each
 comma in it

---
 src/ssa_reader.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 354459e..197c8bb 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -508,10 +508,11 @@ SSAReader::read (function<optional<string> ()> get_line)
 				/* There may be commas in the subtitle part; reassemble any extra parts
 				   from when we just split it.
 				*/
-				while (event.size() > event_format.size()) {
-					string const ex = event.back ();
-					event.pop_back ();
-					event.back() += "," + ex;
+				if (event.size() > event_format.size()) {
+					for (size_t i = event_format.size(); i < event.size(); ++i) {
+						event[event_format.size() - 1] += "," + event[i];
+					}
+					event.resize (event_format.size());
 				}
 
 				SUB_ASSERT (!event.empty());
-- 
2.43.0


From 0cc6895949c2a3d7927cec4797cd08884afe4803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:37 +0000
Subject: [PATCH 51/65] fix: report times which are too large instead of
 overflowing

---
 src/stl_text_reader.cc |  3 +++
 src/sub_time.cc        | 17 +++++++++++++++--
 src/subrip_reader.cc   |  7 ++++++-
 3 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 2334737..2613c7a 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -147,6 +147,9 @@ STLTextReader::time (string t) const
 	} catch (boost::bad_lexical_cast &) {
 		warn (String::compose ("Unrecognised time %1", t));
 		return optional<Time> ();
+	} catch (std::overflow_error &) {
+		warn (String::compose ("Unrecognised time %1", t));
+		return optional<Time> ();
 	}
 }
 
diff --git a/src/sub_time.cc b/src/sub_time.cc
index cdfbd5b..73c4e05 100644
--- a/src/sub_time.cc
+++ b/src/sub_time.cc
@@ -24,6 +24,8 @@
 #include <cstdint>
 #include <iomanip>
 #include <iostream>
+#include <limits>
+#include <stdexcept>
 
 using std::ostream;
 using std::cout;
@@ -144,16 +146,27 @@ Time::milliseconds () const
 	return frames_at (Rational (1000, 1));
 }
 
+/** @return h:m:s in seconds, throwing std::overflow_error if it is too large to be stored in a Time */
+static int
+hms_to_seconds (int h, int m, int s)
+{
+	auto const seconds = int64_t(h) * 3600 + int64_t(m) * 60 + s;
+	if (seconds < std::numeric_limits<int>::min() || seconds > std::numeric_limits<int>::max()) {
+		throw std::overflow_error ("time out of range");
+	}
+	return seconds;
+}
+
 Time
 Time::from_hmsf (int h, int m, int s, int f, optional<Rational> rate)
 {
-	return Time (h * 3600 + m * 60 + s, f, rate);
+	return Time (hms_to_seconds(h, m, s), f, rate);
 }
 
 Time
 Time::from_hms (int h, int m, int s, int ms)
 {
-	return Time (h * 3600 + m * 60 + s, ms, Rational (1000, 1));
+	return Time (hms_to_seconds(h, m, s), ms, Rational (1000, 1));
 }
 
 /** Create a Time from a number of frames.
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 8e50d9b..9386a7c 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -222,7 +222,12 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 		return {};
 	}
 
-	return Time::from_hms (h, m, s, ms);
+	try {
+		return Time::from_hms (h, m, s, ms);
+	} catch (std::overflow_error &) {
+		report_expected("time that is not too large");
+		return {};
+	}
 }
 
 void
-- 
2.43.0


From 8b2c6dc04a89f2f2925002093bab918475e3b56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:28 +0000
Subject: [PATCH 52/65] fix: reject SSA times whose fraction is too large

---
 src/ssa_reader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 197c8bb..8274f91 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -27,6 +27,7 @@
 #include <boost/bind/bind.hpp>
 #include <cstdlib>
 #include <iostream>
+#include <limits>
 #include <vector>
 
 using std::string;
@@ -216,11 +217,15 @@ SSAReader::parse_time (string t) const
 	vector<string> bits;
 	split (bits, t, is_any_of (":."));
 	SUB_ASSERT (bits.size() == 4);
+	int const hundredths = raw_convert<int> (bits[3]);
+	if (hundredths < std::numeric_limits<int>::min() / 10 || hundredths > std::numeric_limits<int>::max() / 10) {
+		throw SSAError(String::compose("Badly formatted time %1", t));
+	}
 	return Time::from_hms (
 		raw_convert<int> (bits[0]),
 		raw_convert<int> (bits[1]),
 		raw_convert<int> (bits[2]),
-		raw_convert<int> (bits[3]) * 10
+		hundredths * 10
 		);
 }
 
-- 
2.43.0


From 7701948380187f311d7f09c355cee6d551b7bf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:07 +0000
Subject: [PATCH 53/65] fix: parse numbers in SubRip, WebVTT and text STL files
 in the same way whatever the locale

---
 src/stl_text_reader.cc |  5 ++---
 src/subrip_reader.cc   |  9 ++++-----
 src/util.cc            | 17 +++++++++++++++++
 src/util.h             |  1 +
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 2613c7a..b51f220 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -34,7 +34,6 @@ using boost::algorithm::trim;
 using boost::algorithm::starts_with;
 using boost::is_any_of;
 using boost::optional;
-using boost::lexical_cast;
 using namespace sub;
 
 STLTextReader::STLTextReader (istream& in)
@@ -143,7 +142,7 @@ STLTextReader::time (string t) const
 	}
 
 	try {
-		return sub::Time::from_hmsf (lexical_cast<int> (b[0]), lexical_cast<int> (b[1]), lexical_cast<int> (b[2]), lexical_cast<int> (b[3]));
+		return sub::Time::from_hmsf (string_to_int (b[0]), string_to_int (b[1]), string_to_int (b[2]), string_to_int (b[3]));
 	} catch (boost::bad_lexical_cast &) {
 		warn (String::compose ("Unrecognised time %1", t));
 		return optional<Time> ();
@@ -166,7 +165,7 @@ STLTextReader::set (string name, string value)
 		_subtitle.underline = value == "True";
 	} else if (name == "$FontSize") {
 		try {
-			_subtitle.font_size.set_points (lexical_cast<int> (value));
+			_subtitle.font_size.set_points (string_to_int (value));
 		} catch (boost::bad_lexical_cast &) {
 			warn (String::compose ("Unrecognised font size %1", value));
 		}
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 9386a7c..0176757 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -43,7 +43,6 @@ using std::string;
 using std::vector;
 using std::cout;
 using std::hex;
-using boost::lexical_cast;
 using boost::to_upper;
 using boost::optional;
 using boost::function;
@@ -195,28 +194,28 @@ SubripReader::convert_time(string t, string milliseconds_separator, string* expe
 	int h, m, s, ms;
 
 	try {
-		h = lexical_cast<int>(a[0]);
+		h = string_to_int(a[0]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer hour value");
 		return {};
 	}
 
 	try {
-		m = lexical_cast<int>(a[1]);
+		m = string_to_int(a[1]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer minute value");
 		return {};
 	}
 
 	try {
-		s = lexical_cast<int>(b[0]);
+		s = string_to_int(b[0]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer second value");
 		return {};
 	}
 
 	try {
-		ms = lexical_cast<int>(b[1]);
+		ms = string_to_int(b[1]);
 	} catch (boost::bad_lexical_cast &) {
 		report_expected("integer millisecond value");
 		return {};
diff --git a/src/util.cc b/src/util.cc
index be16178..b8ade5c 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -21,9 +21,12 @@
 #include "reader.h"
 #include "subtitle.h"
 #include "collect.h"
+#include <boost/lexical_cast.hpp>
 #include <memory>
+#include <sstream>
 #include <string>
 #include <iostream>
+#include <locale>
 #include <cstdio>
 #include <map>
 
@@ -36,6 +39,20 @@ using std::vector;
 using boost::optional;
 using namespace sub;
 
+/** As boost::lexical_cast<int> but always using the "C" locale (i.e. with no thousands separators) */
+int
+sub::string_to_int (string s)
+{
+	std::istringstream stream (s);
+	stream.imbue (std::locale::classic());
+	int v = 0;
+	stream >> std::noskipws >> v;
+	if (stream.fail() || stream.get() != std::istringstream::traits_type::eof()) {
+		throw boost::bad_lexical_cast ();
+	}
+	return v;
+}
+
 /** @param s A string.
  *  @return true if the string contains only space, newline or tab characters, or is empty.
  */
diff --git a/src/util.h b/src/util.h
index e83e896..84ed0ac 100644
--- a/src/util.h
+++ b/src/util.h
@@ -35,6 +35,7 @@ extern bool empty_or_white_space (std::string s);
 extern void remove_unicode_bom (boost::optional<std::string>& line);
 extern boost::optional<std::string> get_line_file (FILE* f);
 extern boost::optional<std::string> get_line_string (std::string const * s, size_t* pos);
+extern int string_to_int (std::string s);
 extern void dump (std::shared_ptr<const Reader> read, std::ostream& os);
 
 }
-- 
2.43.0


From b4c9daa6a37b72c1e4328e88882b41ec2baced9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 54/65] fix: do not let the locale decide what is a space,
 lower case or a decimal point in subtitle files

---
 src/raw_convert.cc     |  8 ++++++--
 src/ssa_reader.cc      | 12 ++++++------
 src/stl_text_reader.cc | 10 +++++-----
 src/subrip_reader.cc   |  4 ++--
 4 files changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/raw_convert.cc b/src/raw_convert.cc
index 141453f..b7fc794 100644
--- a/src/raw_convert.cc
+++ b/src/raw_convert.cc
@@ -27,8 +27,12 @@ static
 string
 make_local (string v)
 {
-	struct lconv* lc = localeconv ();
-	boost::algorithm::replace_all (v, ".", lc->decimal_point);
+	string const point = localeconv()->decimal_point;
+	if (point != ".") {
+		/* A local decimal point is not part of a raw number, so the number ends there */
+		v = v.substr (0, v.find(point));
+		boost::algorithm::replace_all (v, ".", point);
+	}
 	/* We hope it's ok not to add in thousands separators here */
 	return v;
 }
diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 8274f91..59656e5 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -112,8 +112,8 @@ public:
 		SUB_ASSERT (keys.size() == style.size());
 
 		for (size_t i = 0; i < style.size(); ++i) {
-			trim (keys[i]);
-			trim (style[i]);
+			trim (keys[i], std::locale::classic());
+			trim (style[i], std::locale::classic());
 			if (keys[i] == "Name") {
 				name = style[i];
 			} else if (keys[i] == "Fontname") {
@@ -448,7 +448,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 			break;
 		}
 
-		trim (*line);
+		trim (*line, std::locale::classic());
 		remove_unicode_bom (line);
 
 		if (starts_with (*line, ";") || line->empty ()) {
@@ -478,7 +478,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 		SUB_ASSERT (colon != string::npos);
 		string const type = line->substr (0, colon);
 		string body = line->substr (colon + 1);
-		trim (body);
+		trim (body, std::locale::classic());
 
 		switch (part) {
 		case OTHER:
@@ -503,7 +503,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 			if (type == "Format") {
 				split (event_format, body, is_any_of (","));
 				for (auto& i: event_format) {
-					trim (i);
+					trim (i, std::locale::classic());
 				}
 			} else if (type == "Dialogue") {
 				SUB_ASSERT (!event_format.empty ());
@@ -533,7 +533,7 @@ SSAReader::read (function<optional<string> ()> get_line)
 				int event_right_margin = 0;
 
 				for (size_t i = 0; i < event.size(); ++i) {
-					trim (event[i]);
+					trim (event[i], std::locale::classic());
 					if (event_format[i] == "Start") {
 						sub.from = parse_time (event[i]);
 					} else if (event_format[i] == "End") {
diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index b51f220..8557046 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -49,7 +49,7 @@ STLTextReader::STLTextReader (istream& in)
 		optional<string> without_bom = raw_line;
 		remove_unicode_bom (without_bom);
 		string line = *without_bom;
-		trim (line);
+		trim (line, std::locale::classic());
 
 		if (starts_with (line, "//")) {
 			continue;
@@ -61,9 +61,9 @@ STLTextReader::STLTextReader (istream& in)
 			split (bits, line, is_any_of ("="));
 			if (bits.size() == 2) {
 				string name = bits[0];
-				trim (name);
+				trim (name, std::locale::classic());
 				string value = bits[1];
-				trim (value);
+				trim (value, std::locale::classic());
 
 				set (name, value);
 			} else {
@@ -83,9 +83,9 @@ STLTextReader::STLTextReader (istream& in)
 			}
 
 			string from_string = line.substr (0, divider[0]);
-			trim (from_string);
+			trim (from_string, std::locale::classic());
 			string to_string = line.substr (divider[0] + 1, divider[1] - divider[0] - 1);
-			trim (to_string);
+			trim (to_string, std::locale::classic());
 
 			optional<Time> from = time (from_string);
 			optional<Time> to = time (to_string);
diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 0176757..28bf31c 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -238,9 +238,9 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 	replace_all (t, "\xe2\x80\xab", "");
 
 	auto has_next = [](string const& line, size_t& index, string s) {
-		boost::to_lower(s);
+		boost::to_lower(s, std::locale::classic());
 		auto next = line.substr(index, s.size());
-		boost::to_lower(next);
+		boost::to_lower(next, std::locale::classic());
 		if (next != s) {
 			return false;
 		}
-- 
2.43.0


From 591d7f00b30a0ec8f530b05f409ad5c4b798cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:48 +0000
Subject: [PATCH 55/65] fix: do not let the locale decide what is a digit or a
 space in SubRip colours

---
 src/subrip_reader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/subrip_reader.cc b/src/subrip_reader.cc
index 28bf31c..27c0711 100644
--- a/src/subrip_reader.cc
+++ b/src/subrip_reader.cc
@@ -36,6 +36,7 @@
 #include <boost/regex.hpp>
 #include <cstdio>
 #include <iostream>
+#include <locale>
 #include <vector>
 
 
@@ -271,7 +272,10 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 			p.underline = false;
 		} else if (has_next(t, i, "<font") || has_next(t, i, "<Font")) {
 			maybe_content (p);
-			boost::regex re (".*color=[\"\']?#([[:xdigit:]]+)[\"\']?");
+			/* Use the classic locale so that the global one does not decide what is a digit or a space */
+			boost::regex re;
+			re.imbue(std::locale::classic());
+			re.assign(".*color=[\"\']?#([[:xdigit:]]+)[\"\']?");
 			boost::smatch match;
 			string tag;
 			while (i < t.size() && t[i] != '>') {
@@ -290,7 +294,7 @@ SubripReader::convert_line(int line_number, string t, RawSubtitle& p)
 					throw SubripError(line_number, tag, "a colour in the format #rrggbb #rrggbbaa or rgba(rr,gg,bb,aa)", _context);
 				}
 			} else {
-				re = boost::regex (
+				re.assign(
 					".*color=\"rgba\\("
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*,"
 					"[[:space:]]*([[:digit:]]+)[[:space:]]*,"
-- 
2.43.0


From a2c94926fadf6f2abb987fba312f774130a17bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:35 +0000
Subject: [PATCH 56/65] fix: make dumpsubs fail when it is given an unknown
 option

---
 tools/dumpsubs.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/dumpsubs.cc b/tools/dumpsubs.cc
index cf7008e..f59365c 100644
--- a/tools/dumpsubs.cc
+++ b/tools/dumpsubs.cc
@@ -59,6 +59,10 @@ main (int argc, char* argv[])
 		case 'h':
 			help (argv[0]);
 			exit (EXIT_SUCCESS);
+		default:
+			/* getopt_long() has already complained */
+			help (argv[0]);
+			exit (EXIT_FAILURE);
 		}
 	}
 
-- 
2.43.0


From d564e14aca82fac5e25b997c93f2e75bc7b4b94f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 57/65] fix: read text STL files which are shorter than 11
 bytes

---
 src/reader_factory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 2eb68d4..06fa4f1 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -42,8 +42,11 @@ sub::reader_factory (boost::filesystem::path file_name)
 		ifstream f (file_name.string().c_str ());
 		char buffer[11];
 		f.read (buffer, 11);
+		auto const got = f.gcount ();
+		/* There may be fewer than 11 bytes */
+		f.clear ();
 		f.seekg (0);
-		if (f.gcount() == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
+		if (got == 11 && buffer[3] == 'S' && buffer[4] == 'T' && buffer[5] == 'L') {
 			return shared_ptr<Reader> (new STLBinaryReader (f));
 		} else {
 			return shared_ptr<Reader> (new STLTextReader (f));
-- 
2.43.0


From 3febd7a8e793aa79b7521c9a236521ac8b816400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:50 +0000
Subject: [PATCH 58/65] fix: report STL files which cannot be opened

---
 src/reader_factory.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 06fa4f1..687b4af 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -17,6 +17,7 @@
 
 */
 
+#include "exceptions.h"
 #include "reader_factory.h"
 #include "stl_binary_reader.h"
 #include "stl_text_reader.h"
@@ -40,6 +41,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 	if (ext == ".stl") {
 		/* Check the start of the DFC */
 		ifstream f (file_name.string().c_str ());
+		if (!f) {
+			throw STLError ("Could not open " + file_name.string());
+		}
 		char buffer[11];
 		f.read (buffer, 11);
 		auto const got = f.gcount ();
-- 
2.43.0


From 2c5ccb1337f32e6165478f17e2e2b93474593c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:01 +0000
Subject: [PATCH 59/65] fix: report errors while reading text files rather than
 taking them for the end of the file

---
 src/stl_text_reader.cc | 5 +++++
 src/util.cc            | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/stl_text_reader.cc b/src/stl_text_reader.cc
index 8557046..7c73a4f 100644
--- a/src/stl_text_reader.cc
+++ b/src/stl_text_reader.cc
@@ -20,6 +20,7 @@
 #include "stl_text_reader.h"
 #include "util.h"
 #include "compose.hpp"
+#include "exceptions.h"
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <vector>
@@ -129,6 +130,10 @@ STLTextReader::STLTextReader (istream& in)
 			maybe_push ();
 		}
 	}
+
+	if (in.bad ()) {
+		throw STLError ("Could not read text STL file");
+	}
 }
 
 optional<Time>
diff --git a/src/util.cc b/src/util.cc
index b8ade5c..81007ca 100644
--- a/src/util.cc
+++ b/src/util.cc
@@ -24,6 +24,7 @@
 #include <boost/lexical_cast.hpp>
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <locale>
@@ -99,6 +100,10 @@ sub::get_line_file (FILE* f)
 		}
 	}
 
+	if (c == EOF && ferror(f)) {
+		throw std::runtime_error ("could not read from file");
+	}
+
 	if (line.empty()) {
 		return optional<string> ();
 	}
-- 
2.43.0


From 84b13b19388eeaa169d62e5f3fb6693ae4406b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:01 +0000
Subject: [PATCH 60/65] fix: report errors while finding out what kind of STL
 file is to be read

---
 src/reader_factory.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/reader_factory.cc b/src/reader_factory.cc
index 687b4af..4fcae64 100644
--- a/src/reader_factory.cc
+++ b/src/reader_factory.cc
@@ -46,6 +46,9 @@ sub::reader_factory (boost::filesystem::path file_name)
 		}
 		char buffer[11];
 		f.read (buffer, 11);
+		if (f.bad()) {
+			throw STLError ("Could not read from " + file_name.string());
+		}
 		auto const got = f.gcount ();
 		/* There may be fewer than 11 bytes */
 		f.clear ();
-- 
2.43.0


From f76d3435b7be85365380eea61c6729b6567d866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:40 +0000
Subject: [PATCH 61/65] fix: do not leak memory if a binary STL file cannot be
 made

---
 src/stl_binary_writer.cc | 21 ++++++---------------
 1 file changed, 6 insertions(+), 15 deletions(-)

diff --git a/src/stl_binary_writer.cc b/src/stl_binary_writer.cc
index 60ecd27..fe21ca5 100644
--- a/src/stl_binary_writer.cc
+++ b/src/stl_binary_writer.cc
@@ -169,11 +169,11 @@ put_timecode (char* p, Time t, int frame_rate)
 	put_int_as_int (p + 3, frames, 1);
 }
 
-vector<char*>
+vector<string>
 make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& tables, float frames_per_second)
 {
 	static int const tti_size = 128;
-	vector<char*> tti;
+	vector<string> tti;
 
 	/* Buffer to build the TTI blocks in */
 	char buffer[tti_size];
@@ -288,9 +288,6 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 		/* Extension blocks can be numbered from 0 to 0xef, with 0xff for the last */
 		size_t const max_blocks = 0xf1;
 		if (text.length() > block_size * max_blocks) {
-			for (auto j: tti) {
-				delete[] j;
-			}
 			throw STLError ("Subtitle is too long to write to a binary STL file");
 		}
 		size_t offset = 0;
@@ -304,9 +301,7 @@ make_tti_blocks (vector<Subtitle> const& subtitles, STLBinaryTables const& table
 			put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);
 			++block_number;
 
-			char* finished = new char[tti_size];
-			memcpy (finished, buffer, tti_size);
-			tti.push_back (finished);
+			tti.push_back (string(buffer, tti_size));
 		}
 	}
 
@@ -375,12 +370,9 @@ sub::write_stl_binary (
 		}
 	}
 
-	vector<char*> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
+	vector<string> tti_blocks = make_tti_blocks (subtitles, tables, frames_per_second);
 
 	if (tti_blocks.size() > 99999) {
-		for (auto i: tti_blocks) {
-			delete[] i;
-		}
 		throw STLError ("Too many subtitles to write to a binary STL file");
 	}
 
@@ -431,9 +423,8 @@ sub::write_stl_binary (
 
 	ofstream output (file_name.string().c_str());
 	output.write (buffer, 1024);
-	for (auto i: tti_blocks) {
-		output.write (i, 128);
-		delete[] i;
+	for (auto const& i: tti_blocks) {
+		output.write (i.data(), i.size());
 	}
 
 	output.close ();
-- 
2.43.0


From f4b73018db8e9dac45c97ac887a3c7222d0e4a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:48:05 +0000
Subject: [PATCH 62/65] fix: dumpsubs reports a failure to write its output

---
 tools/dumpsubs.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/dumpsubs.cc b/tools/dumpsubs.cc
index f59365c..7b99776 100644
--- a/tools/dumpsubs.cc
+++ b/tools/dumpsubs.cc
@@ -83,6 +83,11 @@ main (int argc, char* argv[])
 	}
 
 	sub::dump (reader, cout);
+	cout.flush ();
+	if (!cout) {
+		cerr << argv[0] << ": could not write output.\n";
+		exit (EXIT_FAILURE);
+	}
 
 	return 0;
 }
-- 
2.43.0


From 43d3e85fa8177e30c21f5b8c513590e07b8b8744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:35 +0000
Subject: [PATCH 63/65] fix: text after an SSA override block placed as though
 a tag beginning with n were a line break

---
 src/ssa_reader.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 59656e5..0027e94 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -342,15 +342,8 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 		current.font_size.set_proportional(72.0 / context.play_res_y);
 	}
 
-	/* Count the number of line breaks */
+	/* Number of line breaks */
 	int line_breaks = 0;
-	if (line.length() > 0) {
-		for (size_t i = 0; i < line.length() - 1; ++i) {
-			if (line[i] == '\\' && (line[i+1] == 'n' || line[i+1] == 'N')) {
-				++line_breaks;
-			}
-		}
-	}
 
 	/* There are vague indications that with ASS 1 point should equal 1 pixel */
 	double const line_size = current.font_size.proportional(context.play_res_y) * 1.2;
@@ -389,6 +382,7 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 					subs.push_back (current);
 					current.text = "";
 				}
+				++line_breaks;
 				/* Move down one line (1.2 times the font size) */
 				current.vertical_position.proportional = current.vertical_position.proportional.get() + line_size;
 			}
-- 
2.43.0


From 775d47df07d36dbf2691845b33ffdc1dfa6a9949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:51 +0000
Subject: [PATCH 64/65] fix: lines after a \pos in a SubRip subtitle were
 joined to the line that has it

---
 src/vertical_position.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vertical_position.cc b/src/vertical_position.cc
index c4bd796..c8c1965 100644
--- a/src/vertical_position.cc
+++ b/src/vertical_position.cc
@@ -54,7 +54,7 @@ bool
 VerticalPosition::operator== (VerticalPosition const & other) const
 {
 	if (proportional && reference && other.proportional && other.reference) {
-		return proportional == other.proportional && reference == other.reference;
+		return proportional == other.proportional && reference == other.reference && line == other.line;
 	} else if (reference && line && lines && other.reference && other.line && other.lines) {
 		return line == other.line && lines == other.lines && reference == other.reference;
 	} else if (reference && line && other.reference && other.line) {
-- 
2.43.0


From f7c4bad91369943709cee6a101a2e8047d35022b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:51:27 +0000
Subject: [PATCH 65/65] fix: backslashes and non-breaking spaces in the text of
 SSA events were lost

---
 src/ssa_reader.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/ssa_reader.cc b/src/ssa_reader.cc
index 0027e94..06342e3 100644
--- a/src/ssa_reader.cc
+++ b/src/ssa_reader.cc
@@ -385,12 +385,23 @@ SSAReader::parse_line(RawSubtitle base, string line, Context const& context)
 				++line_breaks;
 				/* Move down one line (1.2 times the font size) */
 				current.vertical_position.proportional = current.vertical_position.proportional.get() + line_size;
+			} else if (c == 'h') {
+				/* Non-breaking space */
+				current.text += "\xc2\xa0";
+			} else {
+				/* This backslash is just text; look at the character after it again */
+				current.text += '\\';
+				--i;
 			}
 			state = TEXT;
 			break;
 		}
 	}
 
+	if (state == BACKSLASH) {
+		current.text += '\\';
+	}
+
 	if (!current.text.empty ()) {
 		subs.push_back (current);
 	}
-- 
2.43.0

