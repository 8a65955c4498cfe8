#include "subrip_model.h"
#include "subrip_reader.h"

using namespace srt;

static void run(mc::Ctx& c, const string& doc, const vector<Cue>& cues)
{
	c.input(doc);
	vector<Piece> want;
	for (auto& q: cues) {
		cue(q, want);
	}
	uint64_t h = 0;
	for (auto& p: want) {
		h = mc::mix(h, mc::hash(show_piece(p)));
		c.state(h);
	}
	try {
		sub::SubripReader r(doc);
		compare_pieces(c, want, r.subtitles());
	} catch (std::exception& e) {
		c.fail("exception", string("well-formed file rejected: ") + e.what());
	}
}

static void run(mc::Ctx& c, const vector<Cue>& cues)
{
	run(c, write(cues), cues);
}

static const vector<string>& full()
{
	static vector<string> t;
	if (t.empty()) {
		t = {"a", "xy", " ", "<b>", "</b>", "<i>", "</i>", "<u>", "</u>", "{b}", "{/b}", "{i}", "{/i}", "{u}", "{/u}", "</font>", "</Font>",
		     "<", ">", "{", "}", "/", "\xc3\xa9", "\xe2\x80\xab", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "<<", "< b>", "<bx>", "{b", "1", "-->", "00:00:01,000 --> 00:00:02,000",
		     "{\\i1}", "{\\i0}", "{\\b1}", "{\\b0}", "{\\u1}", "{\\u0}", "{\\an8}", "{\\an1}", "{\\an6}", "{\\pos(72,144)}", "{\\c&H0000FF&}", "{\\c&H804020&}", "{\\c}",
		     "{\\fs36}", "{\\q2}", "{\\fad(1,2)}", "{\\i1\\b1}", "{\\an5\\u1\\q}"};
		for (auto& f: fonts()) {
			t.push_back(f.tag);
		}
	}
	return t;
}

/** All sequences of n tokens in one line */
static void tokens(mc::Ctx& c, const vector<string>& alphabet, int min, int max)
{
	int n = min + c.pick(max - min + 1);
	string l;
	for (int i = 0; i < n; ++i) {
		l += c.of(alphabet);
	}
	if (!c.go()) {
		return;
	}
	if (l.empty()) {
		return;
	}
	Cue q{nth(1), nth(2), {l}};
	run(c, {q});
}

/** Sequences of symbols which include ends of lines and cues */
static void structure(mc::Ctx& c, int max)
{
	static const vector<string> alphabet = {"a", "<i>", "</i>", "<b>", "</b>", "<font color=\"#ff0000\">", "<font color=\"#0000ff\">", "</font>", "NL", "\xe2\x80\xa8", "CUE", "{\\an8}"};
	int n = 1 + c.pick(max);
	vector<Cue> cues = {Cue{nth(0), nth(1), {""}}};
	bool ok = true;
	for (int i = 0; i < n; ++i) {
		const string& s = c.of(alphabet);
		auto& l = cues.back().lines;
		if (s == "NL") {
			ok = ok && !l.back().empty();
			l.push_back("");
		} else if (s == "CUE") {
			ok = ok && !l.back().empty();
			int k = cues.size();
			cues.push_back(Cue{nth(2 * k), nth(2 * k + 1), {""}});
		} else {
			l.back() += s;
		}
	}
	ok = ok && !cues.back().lines.back().empty();
	if (!c.go() || !ok) {
		return;
	}
	/* Every cue ends with plain text so that what the tags before it did is seen */
	for (auto& q: cues) {
		q.lines.back() += "z";
	}
	run(c, cues);
}

static void times(mc::Ctx& c)
{
	int which = c.pick(2), field = c.pick(4);
	static const int sizes[] = {1000, 60, 60, 130};
	int v = c.pick(sizes[field]);
	int layout = c.pick(8);
	if (!c.go()) {
		return;
	}
	MT t = ms(12, 34, 56, 789);
	(field == 0 ? t.f : field == 1 ? t.s : field == 2 ? t.m : t.h) = v;
	MT o = ms(200, 1, 2, 3);
	Cue q{which ? o : t, which ? t : o, {"hello"}};
	string arrow[] = {" --> ", "  -->  ", " -->   ", " --> "};
	string a = stamp(q.from), b = stamp(q.to);
	if (layout == 5) {
		a = mc::format("%d:%d:%d,%03d", q.from.h, q.from.m, q.from.s, q.from.f);
		b = mc::format("%d:%d:%d,%03d", q.to.h, q.to.m, q.to.s, q.to.f);
	}
	string l = a + arrow[layout % 4] + b;
	if (layout == 3) l += " ";
	if (layout == 4) l += "  ";
	if (layout == 6) l += " X1:10 X2:20 Y1:30 Y2:40";
	if (layout == 7) l += "  X1:10 X2:20 Y1:30 Y2:40 ";
	run(c, "1\n" + l + "\nhello\n\n", {q});
}

static void colours(mc::Ctx& c)
{
	int channel = c.pick(3), v = c.pick(256), form = c.pick(9), other = c.pick(3);
	if (!c.go()) {
		return;
	}
	int ch[3] = {17, 170, 238};
	if (other) {
		ch[0] = ch[1] = ch[2] = other == 1 ? 0 : 255;
	}
	ch[channel] = v;
	string rgb = mc::format("%02x%02x%02x", ch[0], ch[1], ch[2]), RGBX = mc::format("%02X%02X%02X", ch[0], ch[1], ch[2]);
	string dec = mc::format("%d,%d,%d", ch[0], ch[1], ch[2]);
	string t;
	switch (form) {
	case 0: t = "<font color=\"#" + rgb + "\">"; break;
	case 1: t = "<font color='#" + RGBX + "'>"; break;
	case 2: t = "<font color=#" + rgb + ">"; break;
	case 3: t = "<FONT color=\"#" + rgb + mc::format("%02x", v) + "\">"; break;
	case 4: t = "<font color=#" + RGBX + "ff>"; break;
	case 5: t = "<font color=\"rgba(" + dec + ",255)\">"; break;
	case 6: t = "<font color=\"rgba( " + mc::format("%d , %d ,%d , %d ", ch[0], ch[1], ch[2], v) + ")\">"; break;
	case 7: t = "<font size=\"3\" color=\"#" + rgb + "\" face=\"x\">"; break;
	case 8: t = "<Font face='#123456' color=\"rgba(" + dec + ",0)\">"; break;
	}
	string doc = "1\n00:00:01,000 --> 00:00:02,000\nx" + t + "y</font>z\n\n";
	c.input(doc);
	vector<Piece> want(3);
	for (int i = 0; i < 3; ++i) {
		want[i].text = string(1, 'x' + i);
		want[i].from = ms(0, 0, 1, 0);
		want[i].to = ms(0, 0, 2, 0);
		want[i].vref = sub::TOP_OF_SUBTITLE;
		want[i].has_line = true;
	}
	want[1].colour = rgb8(ch[0], ch[1], ch[2]);
	c.state(mc::hash(t));
	try {
		sub::SubripReader r(doc);
		compare_pieces(c, want, r.subtitles());
	} catch (std::exception& e) {
		c.fail("exception", e.what());
	}
}

/** All sequences of override tags in a block, with text around them */
static void overrides(mc::Ctx& c, int max)
{
	static const vector<string> tags = {"\\i1", "\\i0", "\\i", "\\b1", "\\b0", "\\u1", "\\u0", "\\an8", "\\an1", "\\an6", "\\pos(72,144)", "\\c&H0000FF&", "\\c&H804020&", "\\c", "\\fs36", "\\q2", "\\fad(1,2)", "\\k"};
	int const n = 1 + c.pick(max), before = c.pick(3), after = c.pick(2);
	string t;
	for (int i = 0; i < n; ++i) t += c.of(tags);
	if (!c.go()) {
		return;
	}
	static const string b[] = {"", "x", "<b><i><u><font color=\"#0000ff\">y"};
	run(c, {Cue{nth(1), nth(5), {b[before] + "{" + t + "}" + (after ? "z" : ""), "next</font>w"}}});
}

/** Cues which last for no time or less, and those at the same time */
static void moments(mc::Ctx& c)
{
	int const n = 1 + c.pick(4);
	vector<Cue> q;
	for (int i = 0; i < n; ++i) {
		int const f = c.pick(3), t = c.pick(3);
		q.push_back(Cue{nth(f), nth(t), {mc::format("a%d", i), "<i>b"}});
	}
	if (!c.go()) {
		return;
	}
	run(c, q);
}

/** Every letter case of every tag, between text */
static void cases(mc::Ctx& c)
{
	static const vector<string> tags = {"<b>", "</b>", "<i>", "</i>", "<u>", "</u>", "{b}", "{/b}", "{i}", "{/i}", "{u}", "{/u}", "</font>"};
	string t = c.of(tags);
	int before = c.pick(5);
	for (auto& ch: t) {
		if (ch >= 'a' && ch <= 'z' && c.pick(2)) {
			ch -= 32;
		}
	}
	if (!c.go()) {
		return;
	}
	static const string b[] = {"", "<b><i><u>", "<font color=\"#ff0000\">", "<i>x", "{\\i1}{\\b1}{\\u1}q"};
	run(c, {Cue{nth(1), nth(5), {b[before] + "foo" + t + "bar"}}});
}

static string ascii_word(int n, int from)
{
	string s;
	for (int i = 0; i < n; ++i) {
		s += "abcdefghijklmnopqrstuvwxyz0123456789 "[(from + i) % 37];
	}
	return s;
}

/** Every length of line, of text before a tag, and number of things */
/** @param max largest size, or 0 for sizes around the limits of counters */
static void lengths(mc::Ctx& c, int max)
{
	int kind = c.pick(7);
	int n = max ? 1 + c.pick(max) : c.of(mc::big_sizes());
	if (!c.go()) {
		return;
	}
	if (n > 20000 && (kind == 4 || kind == 5)) {
		/* A megabyte on one line is more than the limits of any counter ask for */
		return;
	}
	vector<Cue> cues;
	switch (kind) {
	case 0: cues = {Cue{nth(1), nth(2), {ascii_word(n, 0)}}}; break;
	case 1: cues = {Cue{nth(1), nth(2), {ascii_word(n, 3) + "<i>" + ascii_word(n / 3 + 1, 1) + "</i>z"}}}; break;
	case 2: {
		Cue q{nth(1), nth(2), {}};
		for (int i = 0; i < n; ++i) q.lines.push_back(ascii_word(1 + i % 7, i));
		cues = {q};
		break;
	}
	case 3:
		for (int i = 0; i < n; ++i) cues.push_back(Cue{nth(i), nth(i + 1), {(i % 3 ? "" : "<i>") + ascii_word(1 + i % 5, i)}});
		break;
	case 4: {
		string l;
		for (int i = 0; i < n; ++i) l += fonts()[i % 7].tag + "a";
		for (int i = 0; i < n + 2; ++i) l += string("</font>") + "b";
		cues = {Cue{nth(1), nth(2), {l}}};
		break;
	}
	case 5: {
		string l;
		for (int i = 0; i < n; ++i) l += string(i % 2 ? "<b>" : "</b>") + "a";
		cues = {Cue{nth(1), nth(2), {l}}};
		break;
	}
	case 6: {
		string l = "a";
		for (int i = 0; i < n; ++i) l += "\xe2\x80\xa8" + ascii_word(i % 4, i);
		cues = {Cue{nth(1), nth(2), {l + "z"}}};
		break;
	}
	}
	run(c, cues);
}

/** All pairs of bytes, alone and inside other text */
static void bytes(mc::Ctx& c, bool pairs)
{
	int a = 1 + c.pick(255), b = pairs ? c.pick(256) : 0, where = c.pick(3);
	if (!c.go()) {
		return;
	}
	string l(1, (char) a);
	if (b) {
		l += (char) b;
	}
	if (l.find('\n') != string::npos) {
		return;
	}
	if (where == 1) {
		l = "x" + l + "y";
	} else if (where == 2) {
		l = "<i>" + l + "</i>" + l + "w";
	}
	/* carriage returns before the newline are part of the line ending */
	string stripped = l;
	while (!stripped.empty() && stripped.back() == '\r') {
		stripped.pop_back();
	}
	if (stripped.empty() || l.compare(0, 2, "{\\") == 0 || l.find("{\\") != string::npos) {
		return;
	}
	Cue q{nth(1), nth(2), {l}};
	Cue e = q;
	e.lines[0] = stripped;
	run(c, write({q}), {e});
}

/** Layout of the file around the cues */
static void layout(mc::Ctx& c)
{
	static const vector<string> counters = {"1", "2", "x", "0", "-->", "1 2 3", "00:00:01,000 --> 00:00:02,000", "\xef\xbb\xbf" "1"};
	int start = c.dev(4), ncues = 1 + c.pick(3), crlf = c.dev(3), end = c.dev(4);
	static const string nl[] = {"\n", "\r\n", "\r\r\n"};
	static const string starts[] = {"", "\xef\xbb\xbf", "N", "NNN"};
	string doc = starts[start];
	vector<Cue> cues;
	vector<int> blank, counter, nlines;
	for (int i = 0; i < ncues; ++i) {
		counter.push_back(c.dev(counters.size()));
		nlines.push_back(c.dev(3));
		blank.push_back(1 + c.dev(3));
	}
	if (!c.go()) {
		return;
	}
	for (int i = 0; i < ncues; ++i) {
		Cue q{nth(2 * i), nth(2 * i + 1), {}};
		/* 0: one line; 1: two lines; 2: no text at all */
		for (int k = 0; k < (nlines[i] + 1) % 3; ++k) {
			q.lines.push_back(mc::format("<i>t%d</i>%d", i, k));
		}
		doc += counters[counter[i]] + "N" + stamp(q.from) + " --> " + stamp(q.to) + "N";
		for (auto& l: q.lines) {
			doc += l + "N";
		}
		for (int k = 0; k < blank[i]; ++k) {
			doc += "N";
		}
		cues.push_back(q);
	}
	/* ends: as it is, no blank line, no newline at all, extra newlines */
	if (end == 1 || end == 2) {
		while (!doc.empty() && doc.back() == 'N') doc.pop_back();
		if (end == 1) doc += "N";
	} else if (end == 3) {
		doc += "NNN";
	}
	string d;
	for (char ch: doc) {
		d += ch == 'N' ? nl[crlf] : string(1, ch);
	}
	run(c, d, cues);
}

int main(int argc, char** argv)
{
	static const vector<string> core = {"a", "<b>", "</b>", "<i>", "</i>", "<u>", "</u>", "<font color=\"#ff0000\">", "<font color=\"rgba(255,128,64,15)\">", "</font>", "{\\i1}", "{\\an1}"};
	static const vector<string> frag = {"a", "<", ">", "b", "i", "/", "{", "}", "u", "B", " "};
	static const vector<string> colour = {"a", "<font color=\"#ff0000\">", "<font color=\"#0000ff\">", "</font>", "{\\c&H804020&}", "{\\c}", "<i>"};
	mc::Options o;
	o.property = "C01";
	return mc::main(argc, argv, o, {
		{"layout", 2, 4, layout},
		{"tokens-full", 0, -1, [](mc::Ctx& c) { tokens(c, full(), 1, 3); }},
		{"tokens-full-4", -1, 0, [](mc::Ctx& c) { tokens(c, full(), 4, 4); }},
		{"tokens-core", 0, -1, [](mc::Ctx& c) { tokens(c, core, 1, 5); }},
		{"tokens-core-6", -1, 0, [](mc::Ctx& c) { tokens(c, core, 1, 6); }},
		{"tokens-colour", 0, 0, [](mc::Ctx& c) { tokens(c, colour, 1, c.thorough() ? 8 : 6); }},
		{"tokens-fragments", 0, 0, [](mc::Ctx& c) { tokens(c, frag, 1, c.thorough() ? 7 : 5); }},
		{"structure", 0, -1, [](mc::Ctx& c) { structure(c, 5); }},
		{"structure-7", -1, 0, [](mc::Ctx& c) { structure(c, 7); }},
		{"times", 0, 0, times},
		{"colours", 0, 0, colours},
		{"cases", 0, 0, cases},
		{"overrides", 0, 0, [](mc::Ctx& c) { overrides(c, c.thorough() ? 4 : 3); }},
		{"moments", 0, 0, moments},
		{"lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 2000 : 300); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { lengths(c, 0); }},
		{"bytes", 0, 0, [](mc::Ctx& c) { bytes(c, false); }},
		{"byte-pairs", 0, 0, [](mc::Ctx& c) { bytes(c, true); }},
	}, "every choice sequence of each scenario: token sequences for lines and for whole files from the alphabets in checks/c01.cc, all values of each time component and colour channel, all letter cases, lengths and byte pairs, all sequences of up to 3 (4) override tags, all orders of the moments of up to 4 cues and line lengths around powers of two; each document is read by the real reader and every piece compared with the reference model",
	{"documents are well formed as described in C01; override tags other than those in the alphabet are taken to have no effect"});
}
