/* C14: results do not depend on the locale of the process */
#include "source.h"
#include "stl_writer_model.h"
#include <clocale>
#include <iostream>
#include <locale>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace src;

/* C locales which are made with localedef (offline, from /usr/share/i18n) */
struct Made { const char* input; const char* charmap; };
static Made const made[] = {
	{"de_DE", "ISO-8859-1"},    // 1.234,5
	{"tr_TR", "ISO-8859-9"},    // lower case of I is not i
	{"ru_RU", "KOI8-R"},        // letters all over the upper half
	{"fr_FR", "UTF-8"},         // groups with a three-byte space
	{"fa_IR", "UTF-8"},         // decimal point of two bytes, other digits
	{"de_CH", "UTF-8"},         // groups with '
	{"pt_BR", "ISO-8859-1"},
	{"lv_LV", "ISO-8859-13"},
};
static vector<string> available;

static void make_locales()
{
	const char* v = getenv("VERIF_DIR");
	string const dir = string(v ? v : ".") + "/build/locales";
	mkdir((string(v ? v : ".") + "/build").c_str(), 0777);
	mkdir(dir.c_str(), 0777);
	setenv("LOCPATH", dir.c_str(), 1);
	vector<pid_t> p;
	for (auto& m: made) {
		string const name = string(m.input) + "." + m.charmap;
		struct stat st;
		if (stat((dir + "/" + name).c_str(), &st) == 0) continue;
		pid_t q = fork();
		if (q == 0) {
			string const tmp = dir + mc::format("/tmp.%d.", getpid()) + name;
			string const cmd = string("localedef -i ") + m.input + " -f " + m.charmap + " --no-archive " + tmp + " >/dev/null 2>&1; test -e " + tmp + "/LC_NUMERIC && mv -T " + tmp + " " + dir + "/" + name + " 2>/dev/null";
			execl("/bin/sh", "sh", "-c", cmd.c_str(), (char*) nullptr);
			_exit(1);
		}
		p.push_back(q);
	}
	for (auto q: p) waitpid(q, nullptr, 0);
	for (auto& m: made) {
		string const name = string(m.input) + "." + m.charmap;
		if (setlocale(LC_ALL, name.c_str())) available.push_back(name);
		else fprintf(stderr, "no locale %s\n", name.c_str());
		setlocale(LC_ALL, "C");
	}
}

class Punct : public std::numpunct<char>
{
public:
	Punct(char d, char t, const string& g) : _d(d), _t(t), _g(g) {}
protected:
	char do_decimal_point() const override { return _d; }
	char do_thousands_sep() const override { return _t; }
	string do_grouping() const override { return _g; }
	string do_truename() const override { return "wahr"; }
	string do_falsename() const override { return "falsch"; }
private:
	char _d, _t;
	string _g;
};

/** Latin-1 as it is on some systems: 85h and A0h are spaces, upper half has letters; Turkish if tr */
class Latin : public std::ctype<char>
{
public:
	explicit Latin(bool tr) : ctype(table()), _tr(tr) {}
	static const mask* table()
	{
		static mask t[table_size];
		memcpy(t, classic_table(), sizeof t);
		for (int i = 0xc0; i < 256; ++i) t[i] = alpha | print | (i < 0xe0 ? upper : lower);
		t[0x85] = space | cntrl;
		t[0xa0] = space | print;
		return t;
	}
protected:
	char do_tolower(char c) const override
	{
		unsigned char const u = c;
		if (_tr && c == 'I') return '\xfd';
		return (u >= 0xc0 && u < 0xe0) || (c >= 'A' && c <= 'Z') ? c + 32 : c;
	}
	const char* do_tolower(char* a, const char* b) const override { for (; a < b; ++a) *a = do_tolower(*a); return b; }
	char do_toupper(char c) const override
	{
		unsigned char const u = c;
		if (_tr && c == 'i') return '\xdd';
		return u >= 0xe0 || (c >= 'a' && c <= 'z') ? c - 32 : c;
	}
	const char* do_toupper(char* a, const char* b) const override { for (; a < b; ++a) *a = do_toupper(*a); return b; }
private:
	bool _tr;
};

/** All of the settings to try; the first is the reference */
struct Setting { string name; std::function<void ()> set; };
static vector<Setting> settings;
static void reset()
{
	std::locale::global(std::locale::classic());
	setlocale(LC_ALL, "C");
}

static void make_settings()
{
	for (auto& a: available) {
		settings.push_back({"C " + a, [a]() { setlocale(LC_ALL, a.c_str()); }});
		settings.push_back({"C++ " + a, [a]() { std::locale::global(std::locale(a.c_str())); }});
		settings.push_back({"C++ " + a + " with C", [a]() { std::locale::global(std::locale(a.c_str())); setlocale(LC_ALL, "C"); }});
	}
	auto facet = [](const string& name, std::function<std::locale ()> f) {
		settings.push_back({"C++ " + name, [f]() { static std::map<const void*, std::locale> m; std::locale::global(f()); }});
	};
	facet("1.234,5", []() { return std::locale(std::locale::classic(), new Punct(',', '.', "\3")); });
	facet("1,2,3,4.5", []() { return std::locale(std::locale::classic(), new Punct('.', ',', "\1")); });
	facet("1 2:3", []() { return std::locale(std::locale::classic(), new Punct(':', ' ', "\1\2")); });
	facet("Latin-1", []() { return std::locale(std::locale::classic(), new Latin(false)); });
	facet("Turkish", []() { return std::locale(std::locale::classic(), new Latin(true)); });
}

/** Do something in every setting */
static void everywhere(mc::Ctx& c, const std::function<string ()>& f)
{
	reset();
	string const want = f();
	for (auto& s: settings) {
		s.set();
		string got = f();
		reset();
		c.check(got == want, "locale", "with the locale " + s.name + " it is\n" + got.substr(0, 8000) + "\nrather than\n" + want.substr(0, 8000));
		c.step();
	}
	c.state(mc::hash(want));
	c.outcome(mc::hash(want));
	c.compared();
}

static void run(mc::Ctx& c, Kind k, const string& d)
{
	c.input(string(kind_names[k]) + ": " + d);
	everywhere(c, [&]() { return read(k, d); });
}

struct Doc { Kind kind; string doc; };

/** Numbers: each N is a number */
static vector<Doc> const numeric = {
	{SUBRIP, "1\nN:0N:N,N --> N:N:N,N\na{\\fsN\\anN\\pos(N,N)\\c&HN&\\iN}b<font color=\"#00000N\">c\n"},
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\n<font color=\"rgba(N,N,N,N)\">x\n"},
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\na{\\fsN}b{\\pos(N,1)}c{\\pos(1,N)}d\n"},
	{VTT, "WEBVTT\n\nN:N:N.N --> N:N:N.N line:N\na\n"},
	{SSA, "[Script Info]\nPlayResX: N\nPlayResY: N\n[V4 Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\nStyle: Default,a,N,N,&HN,N,N,N,N,N,N,N,N\n"
	      "[Events]\nFormat: Layer,Start,End,Style,MarginL,MarginR,MarginV,Text\nDialogue: N,N:N:N.N,N:N:N.N,Default,N,N,N,a{\\fsN\\anN}b\\Nc{\\pos(N,N)\\c&HN&\\iN}d\n"},
	{SSA, "[Script Info]\nPlayResX: 1000\nPlayResY: 2000\n[Events]\nFormat: Start,End,Text\nDialogue: 0:0:1.0,0:0:2.0,a{\\fsN}b\\nc{\\pos(N,N)}d{\\c&HN&}e\n"},
	{SSA, "[Events]\nFormat: Start,End,MarginV,Text\nDialogue: 0:0:1.0,0:0:2.0,N,a\n"},
	{STL_TEXT, "$FontSize = N\n$Bold = N\nN:N:N:N,N:N:N:N,a\n"},
};
static vector<string> const numbers = {"", "0", "1", "7", "10", "12", "100", "255", "1000", "1234", "12345", "1234567", "1.5", "1,5", "0.25", "12.5", "1.234", "1,234", "1.234,5", "1,234.5", "1 234", "1'234", "1\xc2\xa0" "234", "1\xe2\x80\xaf" "234", "1:2", "1;2", "1_2",
	"+1", "-1", "-1.5", "-1,5", " 1", "1 ", "1e3", "1.5e3", "1,5e3", ".5", ",5", "5.", "5,", "0x1F", "0x1f", "ff", "FF", "nan", "inf", "i", "I", "\xc2\xa0" "1", "1\xc2\xa0", "\xa0" "1", "1\xa0", "\xd9\xa1", "\xdb\xb1", "1\xd9\xab" "5", "1\xd9\xac" "000", "1e", "true", "wahr", "True", "TRUE",
	"\xb2", "1\x85", "\x85" "1", "1\x9a", "\t1", "1\t", "1\v"};

static void one_number(mc::Ctx& c, int how)
{
	auto& f = c.of(numeric);
	auto& x = c.of(numbers);
	int const n = std::count(f.doc.begin(), f.doc.end(), 'N');
	int const at = how == 0 ? c.pick(n) : -1;
	auto& other = how == 2 ? c.of(numbers) : numbers[5];
	int const which = how == 2 ? c.pick(n) : -1;
	if (!c.go()) return;
	string d;
	int k = 0;
	for (size_t i = 0; i < f.doc.size(); ++i) {
		char const ch = f.doc[i];
		if (ch != 'N' || (i + 2 < f.doc.size() && f.doc.compare(i, 3, "Nam") == 0)) { d += ch; continue; }
		d += k == which ? other : at < 0 || at == k ? x : "7";
		++k;
	}
	run(c, f.kind, d);
}

/** Letters and other characters that might be taken for something else: each C is a character */
static vector<Doc> const chars = {
	{SUBRIP, "C1\n00:00:01,000 --> 00:00:02,500C\nCaCb<i>C</i>C\nC\nC<b>xC\n"},
	{SUBRIP, "1C\nC00:00:01,000C--> 00:00:02,500\nx\n"},
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\na{\\Ci1}b{\\i1C}c<font Ccolor=C\"#ff0000\">d<Ci>e<iC>f{\\c&HfCf&}g\n"},
	{VTT, "CWEBVTT\nC\n\nx\n"}, {VTT, "WEBVTTC\nC\nCNOTEC\nC\n\nC00:00:01.000 --> 00:00:02.500\nC\nCaC\nbCd\n"}, {VTT, "WEBVTT\n\n00:00:01.000C--> 00:00:02.500C\na\n"},
	{SSA, "C[Script Info]C\nPlayResX:C10C\n[V4 Styles]\nFormat: NameC,CFontnameC,CFontsize\nStyle: DefaultC,CarialC,C12C\n[Events]\nFormat: Start,CEndC,CStyleC,CText\nDialogue: 0:0:1.0,C0:0:2.0C,CDefaultC,CaCbC\\nCd{Ci1}e{\\i1C}fC\nC\n"},
	{SSA, "[V4 Styles]\nFormat: Name,Fontname\nStyle: Default,C\n[Events]\nFormat: Start,End,Style,Text\nDialogue: 0:0:1.0,0:0:2.0,C,C\nDialogue: 0:0:1.0,0:0:2.0,Default,xC\nDialogue: 0:0:1.0,0:0:2.0,*Default,Cx\n"},
	{SSA, "[Events]\nFormat: Start,End,Text\nDialogue: 0:0:1.0,0:0:2.0,xC\nDialogueC: 0:0:1.0,0:0:2.0,Cx\nDialogue: 0:0:1.0,0:0:2.0,xCC"},
	{STL_TEXT, "C//cC\nC$FontNameC=CArialC\n$FontName = C\nC0:0:1:2C,C0:0:3:4C,CaCb^CxCd|C\n0:0:1:2,0:0:3:4,C\n0:0:1:2,0:0:3:4,xC\nC"},
	{STL_TEXT, "$FontName=C\n$Bold=CTrueC\n$FontSize=C12C\n0:0:1:2,0:0:3:4,^BxC\n"},
};

static string utf8(unsigned u)
{
	string s;
	if (u < 0x80) s += (char) u;
	else if (u < 0x800) { s += (char) (0xc0 | u >> 6); s += (char) (0x80 | (u & 63)); }
	else if (u < 0x10000) { s += (char) (0xe0 | u >> 12); s += (char) (0x80 | (u >> 6 & 63)); s += (char) (0x80 | (u & 63)); }
	else { s += (char) (0xf0 | u >> 18); s += (char) (0x80 | (u >> 12 & 63)); s += (char) (0x80 | (u >> 6 & 63)); s += (char) (0x80 | (u & 63)); }
	return s;
}

/** how 0: every byte; 1: every character of one or two bytes (in thorough, of three) */
static void characters(mc::Ctx& c, int how)
{
	auto& f = c.of(chars);
	int const n = std::count(f.doc.begin(), f.doc.end(), 'C');
	string x;
	int at = -1;
	if (how == 0) {
		x = string(1, (char) c.pick(256));
		at = c.pick(n + 1) - 1;
	} else {
		static vector<unsigned> const more = []() {
			vector<unsigned> v;
			for (unsigned i = 0x80; i < 0x800; ++i) v.push_back(i);
			for (unsigned i = 0x2000; i < 0x2070; ++i) v.push_back(i);
			for (unsigned i: {0x1680u, 0x3000u, 0xfeffu, 0x20acu, 0x1f600u, 0x1e9eu, 0x212au, 0xff21u}) v.push_back(i);
			return v;
		}();
		x = utf8(how == 1 ? c.of(more) : 0x800 + c.pick(0x10000 - 0x800));
	}
	if (!c.go()) return;
	string d;
	int k = 0;
	for (char ch: f.doc) {
		if (ch != 'C') d += ch;
		else if (at < 0 || at == k) d += x;
		if (ch == 'C') ++k;
	}
	run(c, f.kind, d);
}

/** Words in every combination of cases: each letter of W is in either case */
static void cases(mc::Ctx& c)
{
	static vector<Doc> const docs = {
		{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\na<W>b</W>c{W}d{/W}e\n"},
		{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\na<W color=\"#Ffaa01\">b</W>c\n"},
		{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\na<font W=\"#00ff00\">b</font>c{\\W}d{\\W1}e{\\c&HW&}f\n"},
		{VTT, "WEBVTT\n\nW\nb\n\n00:00:01.000 --> 00:00:02.500\nW\n"},
		{VTT, "W\n\n00:00:01.000 --> 00:00:02.500\nW\n"},
		{SSA, "[V4 Styles]\nFormat: W,Fontsize,Name,Italic,Bold\nStyle: 12,13,W,-1,-1\n[Events]\nFormat: Start,End,Style,Text\nDialogue: 0:0:1.0,0:0:2.0,W,a{\\W}b\n"},
		{SSA, "[W]\n[Script W]\nPlayResX: 12\n[Events]\nFormat: W,Start,End,Text\nW: 1,0:0:1.0,0:0:2.0,b{\\W1}c\n"},
		{STL_TEXT, "$W=True\n$FontName=W\n0:0:1:2,0:0:3:4,x^Wy\n$Bold=W\n0:0:1:2,0:0:3:4,z\n"},
	};
	static vector<string> const words = {"i", "b", "u", "font", "color", "note", "webvtt", "style", "name", "info", "italic", "bold", "text", "title", "dialogue", "true", "ff00ii", "an", "fs", "pos", "clip", "default", "fontsize"};
	auto& f = c.of(docs);
	string w = c.of(words);
	int const mask = c.pick(1 << std::min((int) w.size(), 6));
	if (!c.go()) return;
	for (size_t i = 0; i < w.size(); ++i) if ((mask >> (i < 5 ? i : 5)) & 1) w[i] = toupper(w[i]);
	string d;
	for (size_t i = 0; i < f.doc.size(); ++i) {
		if (f.doc[i] == 'W' && f.doc.compare(i, 6, "WEBVTT")) d += w; else d += f.doc[i];
	}
	run(c, f.kind, d);
}

/** Errors far down a file; long files */
static void deep(mc::Ctx& c)
{
	static vector<Doc> const docs = {
		{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\nx\n\n"}, {VTT, "id\n00:00:01.000 --> 00:00:02.500\nx\n\n"}, {SSA, ";\n;\n;\nPlayResX: 1\n"}, {STL_TEXT, "0:0:1:2,0:0:3:4,a\n//\n\n$Bold=True\n"}
	};
	static vector<int> const counts = {0, 1, 249, 250, 300, 2500, 3000};
	auto& f = c.of(docs);
	int const n = c.of(counts), bad = c.pick(3);
	if (!c.go()) return;
	string d = f.kind == VTT ? "WEBVTT\n\n" : "";
	for (int i = 0; i < n; ++i) d += f.doc;
	static string const bads[4][3] = {{"1\nx\n", "1\n0:0:x,0 --> 0:0:0,0\n", "1\n00:00:01,000 --> 00:00:02,500\n<font color=x>\n"}, {"-->\n", "0:0:x.0 --> 0:0:0.0\n", ""}, {"nonsense", "[Events]\nDialogue: x\n", ""}, {"x", "1,2", ""}};
	d += bads[f.kind][bad];
	run(c, f.kind, d);
}

/** Binary files: every value of every byte */
static void binary(mc::Ctx& c)
{
	vector<stl::Tti> t(1);
	t[0].text = "\x80" "a1,234.5I\x8a\xc2" "e\xa0\xc8" "i";
	static string const good = stl::file(stl::Gsi(), t);
	int const i = c.pick(1024 - 650 + 40), b = c.pick(c.thorough() ? 256 : 34);
	if (!c.go()) return;
	static string const some = string(1, '\0') + "\x01\n\t .,'-+0123456789aiItxXeE\x85\xa0\xb2\xc4\xe4\xff";
	string d = good;
	d[i < 374 ? i : i - 374 + 1024] = c.thorough() ? (char) b : some[b % some.size()];
	run(c, STL_BINARY, d);
}

static void write(mc::Ctx& c, const vector<wr::Sub>& subs, const wr::Meta& m)
{
	auto const s = wr::make(subs);
	everywhere(c, [&]() {
		return outcome([&]() {
			wr::write(s, m, wr::path());
			return mc::show(wr::slurp(wr::path()), 1 << 20);
		});
	});
}

static void writing(mc::Ctx& c)
{
	static vector<float> const fps = {24, 25, 30, 23.976f, 29.97f, 1000};
	static vector<string> const texts = {"Programme", "1.234,5", "\xc4\xb0Iiı", "\xc2\xa0x\xc2\xa0", "\xa0x\x85", "ÄÖÜß", ""};
	wr::Meta m;
	m.fps = c.of(fps);
	int const n = c.of(vector<int>{1, 0, 2, 999, 1000, 1200});
	/* everything that goes into the header with one subtitle; otherwise just the numbers */
	int const field = n == 1 ? c.pick(5) : 0;
	string const t = n == 1 ? c.of(texts) : texts[0];
	int const rn = n == 1 ? c.of(vector<int>{0, 7, 99}) : 7;
	if (!c.go()) return;
	(field == 0 ? m.opt : field == 1 ? m.tn : field == 2 ? m.pub : field == 3 ? m.cd : m.co) = field >= 3 ? t.substr(0, field == 3 ? 6 : 3) : t;
	m.rn = rn;
	vector<wr::Sub> subs(n);
	for (int i = 0; i < n; ++i) {
		subs[i].from = wr::ms(0, i / 60, i % 60, 500);
		subs[i].to = wr::ms(0, i / 60, i % 60, 999);
		wr::Line l;
		l.prop = 0.5;
		wr::Block b;
		b.text = L"1.234,5 I\u00e9\u0130\u00a0x";
		b.italic = i & 1;
		l.blocks = {b};
		subs[i].lines = {l};
	}
	c.input(mc::format("write %d subtitles at %g fps, field %d is %s", n, m.fps, field, t.c_str()));
	write(c, subs, m);
}

static void writing_characters(mc::Ctx& c)
{
	int const u = c.pick(c.thorough() ? 0x3000 : 0x800);
	if (!c.go()) return;
	wr::Sub s;
	wr::Line l;
	l.kind = 2;
	l.line = 1234;
	l.lines = 2345;
	wr::Block b;
	b.text = std::wstring(L"a") + (wchar_t) u + L"b" + (wchar_t) u;
	l.blocks = {b};
	s.lines = {l};
	c.input(mc::format("write U+%04X", u));
	write(c, {s}, wr::Meta());
}

int main(int argc, char** argv)
{
	std::cout.rdbuf(nullptr);
	make_locales();
	make_settings();
	mc::Options o;
	o.property = "C14";
	return mc::main(argc, argv, o, {
		{"numbers", 0, 0, [](mc::Ctx& c) { one_number(c, 0); }},
		{"same-numbers", 0, 0, [](mc::Ctx& c) { one_number(c, 1); }},
		{"pairs-of-numbers", -1, 0, [](mc::Ctx& c) { one_number(c, 2); }},
		{"bytes", 0, 0, [](mc::Ctx& c) { characters(c, 0); }},
		{"characters", 0, 0, [](mc::Ctx& c) { characters(c, 1); }},
		{"all-characters", -1, 0, [](mc::Ctx& c) { characters(c, 2); }},
		{"cases", 0, 0, cases},
		{"deep", 0, 0, deep},
		{"binary", 0, 0, binary},
		{"writing", 0, 0, writing},
		{"writing-characters", 0, 0, writing_characters},
	}, "29 settings of the C and C++ global locale (8 real locales made with localedef, set for C, for C++ and for C++ only; custom numpunct and ctype facets) x every number of 66 in every numeric place, every byte and every character of one or two bytes (thorough: three) in every kind of place of documents for 4 text readers, words in all cases, errors deep in files, bytes of a binary file, and files written with 6 frame rates and all characters",
	{"locales are changed between operations, not during one"});
}
