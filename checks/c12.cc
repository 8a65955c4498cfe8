/* C12: the same bytes give the same result however they are supplied */
#include "source.h"
#include "stl_model.h"
#include <iostream>
#include <fstream>

using namespace src;

struct Form { Kind kind; vector<string> before, lines; };

/* Lines that documents are made of; each document is the lines in `before' and then any sequence of `lines' */
static Form const forms[] = {
	{SUBRIP, {}, {"1", "00:00:01,000 --> 00:00:02,500", "", "some <i>text", "<font color=\"#ff0000\">r\xc3\xa9" "d\xe2\x80\xa8two", "00:00:01,000 --> 00:00:0x,500", "<font color=red>", "a --> b"}},
	{SUBRIP, {"1", "00:00:01,000 --> 00:00:02,500  "}, {"2", "00:00:03,000 --> 00:00:04,500 X1:1 X2:2 Y1:3 Y2:4", "", "</b>te <b>x", "</font> \xe2\x80\xab{\\i1}x{\\c}", " "}},
	{VTT, {}, {"WEBVTT", "WEBVTT - title", "", "NOTE x", "00:00:01.000 --> 00:00:02.500 line:1", "text\xe2\x80\xa8more", "x --> y", "x -->"}},
	{VTT, {"WEBVTT"}, {"", "NOTE", "00:00:01.000 --> 00:00:02.500", "id", "0:0:1.0 --> 1:1:1.x a:b c:d e:f", "STYLE"}},
	{SSA, {}, {"[Script Info]", "PlayResY: 100", "[V4+ Styles]", "[Events]", "Format: Name, Fontsize, Text", "Style: Default,20,x", "; c", "nonsense"}},
	{SSA, {"[Script Info]", "PlayResY: 200", "[V4+ Styles]", "Format: Name,Fontsize,Italic", "Style: Default,20,-1", "[Events]", "Format: Start, End, Style, Text"},
	 {"Dialogue: 0:00:01.00,0:00:02.50,Default,a, b {\\i0}c\\Nd", "Dialogue: 0:00:03.00,0:00:04.00,Other,\xc3\xa9", "", "Format: Style,Text,Start,End", "; c", "Comment: x"}},
	{STL_TEXT, {}, {"//c", "", "$Bold = True", "$FontSize = 12", "00:00:01:02 , 00:00:03:04 , te^Ix|t", "0:0:1:2,0:0:3:4,\xc3\xa9", "1,2", "$x"}},
	{STL_TEXT, {}, {"$FontName = Arial", "$Italic=False", "  00:00:01:02,00:00:03:04,a^", "0:0:1:x,0:0:3:4,b", "$FontSize = x", "0:0:1:2,0:0:3:4,|c,|"}},
};

static string join(const vector<string>& l, unsigned crlf = 0)
{
	string s;
	for (size_t i = 0; i < l.size(); ++i) s += l[i] + ((crlf >> std::min(i, (size_t) 31)) & 1 ? "\r\n" : "\n");
	return s;
}

static vector<string> lines(mc::Ctx& c, const Form& f, int max)
{
	vector<string> l = f.before;
	int n = c.pick(max + 1);
	for (int i = 0; i < n; ++i) l.push_back(c.of(f.lines));
	return l;
}

static void same(mc::Ctx& c, const string& want, const string& got, const string& key)
{
	c.check(want == got, key, "as a string it is\n" + want + "but here\n" + got);
	c.step();
}

static void done(mc::Ctx& c, const string& want)
{
	c.state(mc::hash(want));
	c.outcome(mc::hash(want));
	c.compared();
}

static vector<Chunks> patterns()
{
	vector<Chunks> o;
	for (int b: {-1, 0, 1, 2, 3, 7, 16}) o.push_back({{}, b});
	for (int n = 1; n < 9; ++n) {
		o.push_back({{n}, -1});
		o.push_back({{n}, 5});
	}
	o.push_back({{1, 2, 3, 5, 8, 13}, -1});
	o.push_back({{13, 1}, 4});
	return o;
}

/** every way of supplying every document */
static void supply(mc::Ctx& c, int max)
{
	auto& f = forms[c.pick(sizeof(forms) / sizeof(forms[0]))];
	auto l = lines(c, f, max);
	bool const newline = !c.pick(2);
	if (!c.go()) return;
	string d = join(l);
	if (!newline && !d.empty()) d.resize(d.size() - 1);
	c.input(string(kind_names[f.kind]) + ": " + d);
	string const want = read(f.kind, d);
	static auto const ps = patterns();
	for (auto& p: ps) same(c, want, read(f.kind, d, p), "supply");
	if (f.kind == STL_TEXT) {
		string const name = mc::scratch() + mc::format("/c12.%d", (int) getpid());
		std::ofstream(name, std::ios::binary) << d;
		std::ifstream s(name);
		same(c, want, outcome([&]() { return show_reader(*from_stream(f.kind, s)); }), "ifstream");
	}
	done(c, want);
}

/** every split of every document into pieces */
static void splits(mc::Ctx& c, int max, int parts)
{
	auto& f = forms[c.pick(sizeof(forms) / sizeof(forms[0]))];
	auto l = lines(c, f, max);
	if (!c.go()) return;
	string const d = join(l);
	c.input(string(kind_names[f.kind]) + ": " + d);
	string const want = read(f.kind, d);
	int const n = d.size();
	for (int i = 1; i < n; ++i) {
		same(c, want, read(f.kind, d, {{i, 100000}, -1}), "split");
		if (parts == 3) for (int j = 1; i + j < n; ++j) same(c, want, read(f.kind, d, {{i, j, 100000}, -1}), "split");
	}
	done(c, want);
}

/** line ends, no last line end, byte order mark */
static void ends(mc::Ctx& c, int max)
{
	auto& f = forms[c.pick(sizeof(forms) / sizeof(forms[0]))];
	auto l = lines(c, f, max);
	if (!c.go()) return;
	string const lf = join(l);
	c.input(string(kind_names[f.kind]) + ": " + lf);
	string const want = read(f.kind, lf);
	size_t const k = f.before.size(), n = l.size() - k;
	for (unsigned m = 0; m < (2u << n); ++m) {
		/* top bit: those before */
		unsigned const mask = (m & ((1u << n) - 1)) << k | ((m >> n) & 1 ? (1u << k) - 1 : 0);
		for (int bom = 0; bom < 2; ++bom) {
			for (int last = 0; last < 2; ++last) {
				if (last && l.empty()) continue;
				string d = (bom ? "\xef\xbb\xbf" : "") + join(l, mask);
				if (last) {
					d.resize(d.size() - (d.size() > 1 && d[d.size() - 2] == '\r' ? 2 : 1));
					/* a last line which is empty disappears */
					if (l.back().empty()) continue;
				}
				string const what = string(mask ? "crlf" : "") + (bom ? "bom" : "") + (last ? "no-last-newline" : "");
				same(c, want, read(f.kind, d), what);
				same(c, want, read(f.kind, d, {{}, -1}), what);
			}
		}
	}
	done(c, want);
}

/** lines of every length: each X is replaced by a run of x */
struct Long { Kind kind; string doc; int texts; };
static vector<Long> const longs = {
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\nX\n\n2\n00:00:03,000 --> 00:00:04,500\n<i>y\n", 1},
	{SUBRIP, "X\n00:00:01,000 --> 00:00:02,500\nt\n\n2\n00:00:03,000 --> 00:00:04,500\ny\n", 0},
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\nt<font face=\"X\" color=\"#ff0000\">u\n", 0},
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500 X1:X X2:2 Y1:1 Y2:2\nt\n", 0},
	{SUBRIP, "1\nX\nt\nX\nX\n", 0},
	{SUBRIP, "1\n00:00:01,000 --> X\nt\n", 0},
	{VTT, "WEBVTT\n\nNOTE X\n\nX\n00:00:01.000 --> 00:00:02.500 X\nX\n", 1},
	{VTT, "WEBVTTX\n\nNOTE\nX\n\n00:00:01.000 --> 00:00:02.500\nt\nX\n\n00:00:01.000 --> 00:00:02.500\ny", 1},
	{VTT, "WEBVTT\n\n-->X\nX\nX\n", 0},
	{SSA, "[Script Info]\nTitle: X\n[Events]\nFormat: Start,End,Text\nDialogue: 0:00:01.00,0:00:02.50,X\nDialogue: 0:00:01.00,0:00:02.50,y\n", 1},
	{SSA, "[V4 Styles]\nFormat: Name,Fontname\nStyle: X,X\n[X]\nX\n[Events]\n;X\nFormat: Start,End,X,Style,Text\nDialogue: 0:00:01.00,0:00:02.50,X,X,y{\\X}X\n", 1},
	{STL_TEXT, "//X\n$FontName = X\n0:0:1:2,0:0:3:4,X\n0:0:1:2,0:0:3:4,y\n", 1},
	{STL_TEXT, "X\n0:0:1:2, 0:0:3:4 ,^IX|y\n", 1},
};

static void lengths(mc::Ctx& c, int max)
{
	auto& f = c.of(longs);
	static int const extra[] = {2047, 2048, 2049, 4095, 4096, 4097, 8190, 8191, 8192, 8193, 16384, 32768, 65535, 65536, 65537, 100000};
	int k = c.pick(max + (int) (sizeof extra / sizeof extra[0]));
	int const n = k < max ? k : extra[k - max];
	int const crlf = c.pick(2);
	int const last = c.pick(2);
	if (!c.go()) return;
	string const x(n, 'x');
	string d;
	/* (a time line whose text is the whole line needs something in it, so X has at least a q) */
	for (char ch: f.doc) {
		if (ch == 'X') d += "q" + x;
		else if (ch == '\n' && crlf) d += "\r\n";
		else d += ch;
	}
	if (last && d.back() == '\n') d.resize(d.size() - 1);
	c.input(mc::format("%s %s: X of %d", kind_names[f.kind], mc::show(f.doc).c_str(), n + 1));
	string want = read(f.kind, d);
	for (int b: {-1, 0, 1, 64, 254, 255, 256, 257, 1024}) {
		if (b == 0 && n > 9000) continue;
		same(c, want, read(f.kind, d, {{}, b}), "line-length");
		if (n <= 3000 && (b == 256 || c.thorough())) same(c, want, read(f.kind, d, {{251}, b}), "line-length");
	}
	/* nothing may depend on the length but the run itself */
	string one = d;
	for (size_t p; n && (p = one.find("q" + x)) != string::npos; ) one.replace(p, n + 1, "q");
	string shorter = read(f.kind, one);
	for (size_t p; n && (p = want.find("q" + x)) != string::npos; ) want.replace(p, n + 1, "q");
	c.check(shorter == want, "depends-on-length", "a line of this length gives\n" + want.substr(0, 4000) + "\nbut a short one\n" + shorter);
	done(c, want);
}

/** many lines */
static void tall(mc::Ctx& c)
{
	auto& f = forms[c.pick(sizeof(forms) / sizeof(forms[0]))];
	auto& l = c.of(f.lines);
	int const n = c.pick(c.thorough() ? 400 : 40) * 7;
	if (!c.go()) return;
	string d = join(f.before);
	for (int i = 0; i < n; ++i) d += l + "\n";
	c.input(string(kind_names[f.kind]) + mc::format(": %d of ", n) + l);
	string const want = read(f.kind, d);
	same(c, want, read(f.kind, d, {{}, -1}), "many-lines");
	same(c, want, read(f.kind, d, {{}, 100}), "many-lines");
	string crlf;
	for (char x: d) crlf += x == '\n' ? string("\r\n") : string(1, x);
	same(c, want, read(f.kind, crlf, {{}, 128}), "many-lines");
	done(c, want);
}

static string binary(int kind)
{
	stl::Gsi g;
	vector<stl::Tti> t;
	int n[] = {0, 1, 3, 3, 2};
	for (int i = 0; i < n[kind]; ++i) {
		stl::Tti x;
		x.sn = i;
		x.text = mc::format("\x80" "text %d\x8a\x07two\xc2" "e", i);
		if (kind == 3) {
			x.sn = 0;
			x.ebn = i == 2 ? 0xff : i;
			x.text = string(112, 'a' + i);
		}
		t.push_back(x);
	}
	if (kind == 2) t[1].cf = 1;
	string s = stl::file(g, t);
	if (kind == 4) s += "trailing bytes";
	return s;
}

/** binary files cut anywhere */
static void bin_cut(mc::Ctx& c)
{
	string d = binary(c.pick(5));
	d.resize(c.pick((int) d.size() + 1));
	if (!c.go()) return;
	c.input(mc::format("%zu bytes of a binary STL file", d.size()));
	string const want = read(STL_BINARY, d);
	for (bool stream: {false, true}) {
		for (auto& p: vector<Chunks>{{{}, -1}, {{}, 0}, {{}, 100}, {{1}, -1}, {{100}, -1}, {{128}, -1}, {{1000, 24}, 1}, {{1024, 127, 1}, -1}, {{512, 600}, 0}}) {
			same(c, want, read(STL_BINARY, d, p, stream), "binary");
		}
	}
	string const name = mc::scratch() + mc::format("/c12.%d", (int) getpid());
	{ std::ofstream(name, std::ios::binary) << d; }
	std::ifstream s(name, std::ios::binary);
	same(c, want, outcome([&]() { return show_reader(*from_stream(STL_BINARY, s)); }), "ifstream");
	FILE* f = fopen(name.c_str(), "rb");
	same(c, want, outcome([&]() { return show_reader(*from_file(STL_BINARY, f)); }), "file");
	fclose(f);
	done(c, want);
}

/** every split of a binary file */
static void bin_split(mc::Ctx& c)
{
	string const d = binary(c.pick(5));
	int const i = 1 + c.pick((int) d.size() - 1);
	if (!c.go()) return;
	c.input(mc::format("binary STL file split at %d", i));
	string const want = read(STL_BINARY, d);
	for (bool stream: {false, true}) {
		same(c, want, read(STL_BINARY, d, {{i, 100000}, -1}, stream), "binary");
		same(c, want, read(STL_BINARY, d, {{i, 100000}, 0}, stream), "binary");
		same(c, want, read(STL_BINARY, d, {{i}, 0}, stream), "binary");
	}
	done(c, want);
}

/** every byte value at every kind of place: string and file agree */
static void bytes(mc::Ctx& c, int pairs)
{
	static vector<Long> const docs = {
		{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\naXb\nXc\ndX\n\n2\n00:00:01,000 --> 00:00:02,500\nlast\n", 0},
		{SUBRIP, "X1\n00:00:01,000 --> 00:00:02,500\ne\nX\n2\n00:00:01,000 --> 00:00:02,500X\nlast\nX", 0},
		{VTT, "WEBVTTX\nX\n00:00:01.000 --> 00:00:02.500X\naXb\nXc\nX\nid\n00:00:01.000 --> 00:00:02.500\nlast\nX", 0},
		{SSA, "[Events]X\nFormat: Start,End,Text\nXDialogue: 0:00:01.00,0:00:02.50,aXb\nX\nDialogue: 0:00:01.00,0:00:02.50,Xlast\nX", 0},
		{SSA, "X[Events]\nXFormat: Start,End,Text\nDialogue: 0:00:01.00,0:00:02.50,aXb{\\iX}c\nX;\nDialogue: 0:00:01.00,0:00:02.50,last\n", 0},
		{STL_TEXT, "X$Bold=TrueX\n0:0:1:2,0:0:3:4,aXb\nX0:0:1:2,0:0:3:4,XcX\n0:0:1:2,0:0:3:4,last\nX", 0},
	};
	auto& f = c.of(docs);
	int const a = c.pick(256), b = pairs ? c.pick(256) : -1;
	/* which of the places */
	int places = std::count(f.doc.begin(), f.doc.end(), 'X');
	int const at = c.pick(places);
	if (!c.go()) return;
	string d;
	int k = 0;
	for (char ch: f.doc) {
		if (ch != 'X') d += ch;
		else if (k++ == at) { d += (char) a; if (b >= 0) d += (char) b; }
	}
	c.input(string(kind_names[f.kind]) + ": " + d);
	string const want = read(f.kind, d);
	same(c, want, read(f.kind, d, {{}, -1}), "byte");
	same(c, want, read(f.kind, d, {{7}, 3}), "byte");
	done(c, want);
}

int main(int argc, char** argv)
{
	std::cout.rdbuf(nullptr);
	mc::Options o;
	o.property = "C12";
	return mc::main(argc, argv, o, {
		{"supply", 0, 0, [](mc::Ctx& c) { supply(c, c.thorough() ? 5 : 4); }},
		{"two-pieces", 0, 0, [](mc::Ctx& c) { splits(c, c.thorough() ? 4 : 3, 2); }},
		{"three-pieces", 0, 0, [](mc::Ctx& c) { splits(c, c.thorough() ? 2 : 1, 3); }},
		{"line-ends", 0, 0, [](mc::Ctx& c) { ends(c, c.thorough() ? 5 : 3); }},
		{"line-lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 2100 : 530); }},
		{"many-lines", 0, 0, tall},
		{"bytes", 0, 0, [](mc::Ctx& c) { bytes(c, c.thorough()); }},
		{"binary-cut", 0, 0, bin_cut},
		{"binary-split", 0, 0, bin_split},
	}, "all documents of up to 3 (thorough 5) lines over 8 line alphabets (well formed and not) for 4 text readers, through 25 patterns of chunked reads and buffer sizes; all splits in two and three; all subsets of lines with CRLF x byte order mark x last newline; line lengths 0-530 (2100) and powers of two in every kind of line; every byte value (pair) at every kind of place; binary files cut or split at every byte",
	{"a FILE or stream delivers at least one byte per read until the end of the file"});
}
