/* C05: text STL files */
#include "subrip_model.h"
#include "stl_text_reader.h"
#include <sstream>

struct Model {
	bool bold = false, italic = false, underline = false;
	bool has_font = false;
	string font;
	int size = 0;
	vector<Piece> out;

	void subtitle(const MT& from, const MT& to, const string& text_)
	{
		/* white space at the end of a line is not part of it */
		string text = text_;
		while (!text.empty() && strchr(" \t\r", text.back())) {
			text.pop_back();
		}
		int line = 0;
		string t;
		auto flush = [&]() {
			if (t.empty()) {
				return;
			}
			Piece p;
			p.text = t;
			p.from = from;
			p.to = to;
			p.bold = bold;
			p.italic = italic;
			p.underline = underline;
			p.has_font = has_font;
			p.font = font;
			p.size_kind = size ? 2 : 0;
			p.size = size;
			p.vref = sub::TOP_OF_SUBTITLE;
			p.has_line = true;
			p.line = line;
			out.push_back(p);
			t.clear();
		};
		for (size_t i = 0; i < text.size(); ) {
			if (text[i] == '|') {
				flush();
				++line;
				++i;
			} else if (text[i] == '^' && i + 1 < text.size() && strchr("BIU", text[i + 1])) {
				flush();
				bool& b = text[i + 1] == 'B' ? bold : text[i + 1] == 'I' ? italic : underline;
				b = !b;
				i += 2;
			} else {
				t += text[i++];
			}
		}
		flush();
	}

	void setting(const string& name, const string& value)
	{
		if (name == "$FontName") { has_font = true; font = value; }
		else if (name == "$FontSize") size = atoi(value.c_str());
		else if (name == "$Bold") bold = value == "True";
		else if (name == "$Italic") italic = value == "True";
		else if (name == "$Underlined") underline = value == "True";
	}
};

static MT fr(int h, int m, int s, int f) { MT t; t.h = h; t.m = m; t.s = s; t.f = f; t.rate = 0; return t; }
static MT nth(int i) { return fr(i / 3600, (i / 60) % 60, i % 60, (i * 7) % 25); }
static string stamp(const MT& t) { return mc::format("%02d:%02d:%02d:%02d", t.h, t.m, t.s, t.f); }

static void run(mc::Ctx& c, const string& doc, const vector<Piece>& want)
{
	c.input(doc);
	uint64_t h = 0;
	for (auto& p: want) {
		h = mc::mix(h, mc::hash(show_piece(p)));
		c.state(h);
	}
	try {
		std::istringstream s(doc);
		sub::STLTextReader r(s);
		compare_pieces(c, want, r.subtitles());
	} catch (std::exception& e) {
		c.fail("exception", string("file rejected: ") + e.what());
	}
}

static void texts(mc::Ctx& c, const vector<string>& alphabet, int min, int max)
{
	int n = min + c.pick(max - min + 1);
	string t;
	for (int i = 0; i < n; ++i) {
		t += c.of(alphabet);
	}
	int end = c.pick(2);
	if (!c.go()) {
		return;
	}
	/* nothing is said about a ^ that is not one of the codes, or a subtitle without text */
	for (size_t i = 0; i < t.size(); ++i) {
		if (t[i] == '^') {
			if (i + 1 == t.size() || !strchr("BIU", t[i + 1])) {
				return;
			}
			++i;
		}
	}
	bool blank = true;
	for (char ch: t) blank = blank && strchr(" \t\r", ch);
	if (blank) {
		return;
	}
	Model m;
	string doc = stamp(nth(1)) + " , " + stamp(nth(2)) + " ," + t + "\n" + stamp(nth(3)) + " , " + stamp(nth(4)) + " , next|line" + (end ? "\n" : "");
	m.subtitle(nth(1), nth(2), t);
	m.subtitle(nth(3), nth(4), " next|line");
	run(c, doc, m.out);
}

/** All sequences of lines of the file */
static void sequences(mc::Ctx& c, int max)
{
	/* S: a subtitle */
	static const vector<string> alphabet = {"S", "S^B", "S|", "$FontName = Arial", "$FontName = Two Words", "$FontSize = 42", "$Bold = True", "$Bold = False", "$Italic = True", "$Underlined = True", "$Underlined=False",
		"// comment", "", "//00:00:01:00 , 00:00:02:00 , no", "rubbish", "a , b , c", "$Nonsense = True", "$FontSize = big", "x:y:z:w , 00:00:02:00 , no", "$Bold", "1,2"};
	int n = 1 + c.pick(max);
	vector<string> s;
	for (int i = 0; i < n; ++i) {
		s.push_back(c.of(alphabet));
	}
	if (!c.go()) {
		return;
	}
	Model m;
	string doc;
	int k = 0;
	auto add = [&](const string& l) {
		if (l[0] == 'S') {
			MT f = nth(2 * k), t = nth(2 * k + 3);
			string x = mc::format(" sub%d", k) + (l == "S^B" ? "^Bbold^B and ^Iitalic" : l == "S|" ? " | second" : "");
			++k;
			doc += stamp(f) + " , " + stamp(t) + " ," + x + "\n";
			m.subtitle(f, t, x);
		} else {
			doc += l + "\n";
			if (l[0] == '$' && l != "$Bold" && l != "$FontSize = big") {
				size_t e = l.find('=');
				string name = l.substr(0, e), value = l.substr(e + 1);
				while (name.back() == ' ') name.pop_back();
				while (value[0] == ' ') value = value.substr(1);
				m.setting(name, value);
			}
		}
	};
	for (auto& l: s) {
		if (l.empty()) doc += "\n"; else add(l);
	}
	add("S");
	run(c, doc, m.out);
}

/** Values that follow one another: each setting has its last value, whatever came before, and each subtitle
 *  starts on the first line, whenever the one before it was.
 */
static void following(mc::Ctx& c, int max)
{
	static const vector<string> alphabet = {"S0", "S1", "S2", "$FontSize = 1", "$FontSize = 9", "$FontSize = 42", "$FontSize = 99", "$FontSize = 100", "$FontSize = 150", "$FontSize = 1000",
		"$FontName = Arial", "$FontName = arial", "$FontName = Times", "$FontName = Arial Black", "$FontName = A"};
	static const vector<string> text = {"a|b", "c", "|d^Be^B||f"};
	int n = 1 + c.pick(max);
	vector<string> s;
	for (int i = 0; i < n; ++i) {
		s.push_back(c.of(alphabet));
	}
	int x = c.pick(3);
	if (!c.go()) {
		return;
	}
	Model m;
	string doc;
	s.push_back("S1");
	for (auto const& l: s) {
		if (l[0] == 'S') {
			/* S1 and S2 start together, S0 before both */
			MT f = l[1] == '0' ? nth(2) : nth(5), t = l[1] == '2' ? nth(9) : nth(7);
			string const u = text[x++ % 3];
			doc += stamp(f) + "," + stamp(t) + "," + u + "\n";
			m.subtitle(f, t, u);
		} else {
			doc += l + "\n";
			m.setting(l.substr(0, 9).back() == ' ' ? l.substr(0, 8) : l.substr(0, 9), l.substr(l.find('=') + 2));
		}
	}
	run(c, doc, m.out);
}

static void times(mc::Ctx& c)
{
	int which = c.pick(2), field = c.pick(4);
	static const int sizes[] = {100, 60, 60, 130};
	int v = c.pick(sizes[field]), form = c.pick(9);
	if (!c.go()) {
		return;
	}
	MT t = fr(12, 34, 56, 20), o = fr(99, 1, 2, 3);
	(field == 0 ? t.f : field == 1 ? t.s : field == 2 ? t.m : t.h) = v;
	MT f = which ? o : t, e = which ? t : o;
	string a = stamp(f), b = stamp(e), l;
	switch (form) {
	case 0: l = a + " , " + b + " , x"; break;
	case 1: l = a + "," + b + ",x"; break;
	case 2: l = a + "  ,  " + b + "  ,  x"; break;
	case 3: l = "  " + a + " , " + b + " ,x  "; break;
	case 4: l = a + "\t,\t" + b + "\t,\tx"; break;
	case 5: l = a + "," + b + " , x"; break;
	case 6: l = a + " ," + b + ",x"; break;
	case 7: l = mc::format("%d:%d:%d:%d,%d:%d:%d:%d,x", f.h, f.m, f.s, f.f, e.h, e.m, e.s, e.f); break;
	case 8: l = "\t" + a + ", " + b + ", x"; break;
	}
	Model m;
	size_t p = l.rfind(',');
	m.subtitle(f, e, l.substr(p + 1));
	run(c, l, m.out);
}

/** @param max largest size, or 0 for sizes around the limits of counters */
static void lengths(mc::Ctx& c, int max)
{
	int kind = c.pick(5), n = max ? 1 + c.pick(max) : c.of(mc::big_sizes()), end = c.pick(2);
	if (!c.go()) {
		return;
	}
	string x;
	for (int i = 0; i < n; ++i) x += "abcdef ghij,k:lm"[(i * 7) % 16];
	x = "." + x + ".";
	Model m;
	string doc;
	auto s = [&](int i, const string& t) { doc += stamp(nth(i)) + " , " + stamp(nth(i + 1)) + " , " + t + "\n"; m.subtitle(nth(i), nth(i + 1), " " + t); };
	switch (kind) {
	case 0: s(1, x); break;
	case 1: for (int i = 0; i < n; ++i) s(i, mc::format("sub %d|%d", i, n)); break;
	case 2: { string t; for (int i = 0; i < n; ++i) t += mc::format("l%d|", i); s(1, t + "e"); break; }
	case 3: { string t; for (int i = 0; i < n; ++i) t += string("^") + "BIU"[i % 3] + x.substr(0, 1 + i % 5); s(1, t); s(5, "again"); break; }
	case 4: doc += "//" + x + "\n$FontName = " + x + "\n$FontSize = " + mc::format("%d", n) + "\n" + x + "\n"; m.setting("$FontName", x); m.setting("$FontSize", mc::format("%d", n)); s(1, "y"); break;
	}
	if (end) {
		doc.pop_back();
	}
	run(c, doc, m.out);
}

/** Layout: spacing of settings, line ends, end of file */
static void layout(mc::Ctx& c)
{
	static const vector<string> values = {"Arial", "Times New Roman", "x", "\xc3\xa9", "A,B", "1"};
	static const vector<string> eq = {" = ", "=", " =", "= ", "\t=\t", "   =   "};
	static const vector<string> bools = {"True", "False", "false", "0", "No"};
	string e1 = c.devof(eq), e2 = c.devof(eq), e3 = c.devof(eq), v = c.devof(values), b1 = c.devof(bools), b2 = c.devof(bools), b3 = c.devof(bools);
	int size = 1 + c.dev(100), lead = c.dev(3), nl = c.dev(2), end = c.dev(4), order = c.dev(2);
	if (!c.go()) {
		return;
	}
	static const string leads[] = {"", "  ", "\t"};
	static const string nls[] = {"\n", "\r\n"};
	Model m;
	string doc = "// head\nN";
	vector<std::pair<string, string>> set = {{"$FontName" + e1 + v, "$FontName"}, {"$Bold" + e2 + b1, "$Bold"}, {"$Italic" + e3 + b2, "$Italic"}, {"$Underlined" + e1 + b3, "$Underlined"}, {mc::format("$FontSize%s%d", e2.c_str(), size), "$FontSize"}};
	auto put = [&](size_t i) {
		doc += leads[lead] + set[i].first + "N";
		m.setting(set[i].second, i == 0 ? v : i == 1 ? b1 : i == 2 ? b2 : i == 3 ? b3 : mc::format("%d", size));
	};
	auto subt = [&](int i, const string& t) { doc += leads[lead] + stamp(nth(i)) + " , " + stamp(nth(i + 1)) + " ," + t + "N"; m.subtitle(nth(i), nth(i + 1), t); };
	subt(1, " before ");
	for (size_t i = 0; i < set.size(); ++i) {
		put(order ? set.size() - 1 - i : i);
		subt(2 + 2 * i, mc::format("after %zu^Bq^B|w", i));
	}
	if (end == 1) doc.pop_back();
	if (end == 2) doc += "N N//N";
	if (end == 3) doc += "// end";
	string d;
	for (char ch: doc) {
		if (ch == 'N' ) d += nls[nl];
		else if (ch == '\n') d += nls[nl];
		else d += ch;
	}
	/* N of Arial etc are not used as markers */
	size_t p;
	while ((p = d.find("$Font" + nls[nl] + "ame")) != string::npos) {
		d.replace(p + 5, nls[nl].size(), "N");
	}
	while ((p = d.find("Times " + nls[nl] + "ew")) != string::npos) {
		d.replace(p + 6, nls[nl].size(), "N");
	}
	run(c, d, m.out);
}

static void bytes(mc::Ctx& c)
{
	int a = 1 + c.pick(255), b = c.pick(256), where = c.pick(2);
	if (!c.go()) {
		return;
	}
	string l(1, (char) a);
	if (b) {
		l += (char) b;
	}
	/* white space at the ends of lines is not defined beyond ordinary spaces, nor are other ^ codes */
	for (char ch: l) {
		if (ch == '\n' || ch == '^' || (!where && strchr("\t\r\v\f ", ch))) {
			return;
		}
	}
	if (where) {
		l = "x" + l + "y";
	}
	Model m;
	m.subtitle(nth(1), nth(2), l);
	m.subtitle(nth(3), nth(4), "z");
	run(c, stamp(nth(1)) + "," + stamp(nth(2)) + "," + l + "\n" + stamp(nth(3)) + "," + stamp(nth(4)) + ",z\n", m.out);
}

int main(int argc, char** argv)
{
	static const vector<string> full = {"a", "|", "^B", "^I", "^U", " ", ",", "bc", ":", "$", "=", "/", "B", "\xc3\xa9", "//", "\t"};
	mc::Options o;
	o.property = "C05";
	return mc::main(argc, argv, o, {
		{"layout", 2, 3, layout},
		{"texts", 0, -1, [](mc::Ctx& c) { texts(c, full, 1, 5); }},
		{"texts-6", -1, 0, [](mc::Ctx& c) { texts(c, full, 1, 6); }},
		{"sequences", 0, -1, [](mc::Ctx& c) { sequences(c, 4); }},
		{"sequences-5", -1, 0, [](mc::Ctx& c) { sequences(c, 5); }},
		{"following", 0, -1, [](mc::Ctx& c) { following(c, 4); }},
		{"following-6", -1, 0, [](mc::Ctx& c) { following(c, 6); }},
		{"times", 0, 0, times},
		{"lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 1500 : 250); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { lengths(c, 0); }},
		{"bytes", 0, 0, bytes},
	}, "all sequences of tokens in a text and of lines in a file up to the length given, all values of each time component in nine layouts, all lengths, all byte pairs, and up to the given number of unusual choices of spacing and settings; each document is read by the real reader and every piece compared with the reference model",
	{"a style toggled in a subtitle stays so until toggled or set again", "a ^ is followed by B, I or U"});
}
