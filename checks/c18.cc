/* C18: reader_factory() */
#include "alloc.h"
#include "source.h"
#include "stl_model.h"
#include "reader_factory.h"
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <new>
#include <sys/stat.h>
#include <unistd.h>

using namespace src;

static string dir()
{
	static string d;
	static pid_t owner = 0;
	if (owner != getpid()) {
		owner = getpid();
		d = mc::scratch() + mc::format("/f.%d", owner);
		mkdir(d.c_str(), 0777);
	}
	return d;
}

static void put(const string& path, const string& data)
{
	int const f = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
	if (f < 0 || write(f, data.data(), data.size()) != (ssize_t) data.size()) { perror(path.c_str()); abort(); }
	close(f);
}

static string type(const std::shared_ptr<sub::Reader>& r)
{
	if (!r) return "nothing";
	if (dynamic_cast<sub::SubripReader*>(r.get())) return "SubRip";
	if (dynamic_cast<sub::STLTextReader*>(r.get())) return "text STL";
	if (dynamic_cast<sub::STLBinaryReader*>(r.get())) return "binary STL";
	return "another reader";
}

/** Result of something and the warnings it gives */
static string with_warnings(const std::function<string ()>& f)
{
	std::ostringstream s;
	std::cout.clear();
	auto const before = std::cout.rdbuf(s.rdbuf());
	string const o = outcome(f);
	std::cout.rdbuf(before);
	return s.str().empty() ? o : o + "\nwith warnings\n" + s.str();
}

static string open_result(const string& path, bool warnings = true)
{
	auto f = [&]() {
		auto r = sub::reader_factory(path);
		return r ? type(r) + "\n" + show_reader(*r) : type(r);
	};
	return warnings ? with_warnings(f) : outcome(f);
}

static string direct(Kind k, const string& d)
{
	return with_warnings([&]() {
		auto r = from_string(k, d);
		return string(kind_names[k]) + "\n" + show_reader(*r);
	});
}

enum { NONE = -1, EITHER = -2 };

static int by_content(const string& d)
{
	if (d.size() >= 11) return d.compare(3, 3, "STL") == 0 ? STL_BINARY : STL_TEXT;
	/* There is no complete disk format code */
	return d.size() >= 4 && d.compare(3, 3, string("STL").substr(0, d.size() - 3)) == 0 ? EITHER : STL_TEXT;
}

static void run(mc::Ctx& c, const string& path, int kind, const string& d)
{
	string got;
	balanced(c, [&]() { got = open_result(path); });
	c.step();
	c.state(mc::hash(got));
	c.outcome(mc::hash(got));
	if (kind == NONE) c.check(got == "nothing", "nothing", "opening it gives " + got + "\nrather than nothing");
	else if (kind == EITHER) c.check(got == direct(STL_BINARY, d) || got == direct(STL_TEXT, d), "contents", "opening it gives\n" + got + "\nwhich is neither of\n" + direct(STL_BINARY, d) + "\nand\n" + direct(STL_TEXT, d));
	else c.check(got == direct((Kind) kind, d), "contents", "opening it gives\n" + got + "\nrather than\n" + direct((Kind) kind, d));
	c.compared();
}

static string binary(int n = 1)
{
	vector<stl::Tti> t(n);
	for (int i = 0; i < n; ++i) { t[i].sn = i; t[i].in.m = t[i].out.m = i; t[i].text = "\x80" "a\x81" "b\x8a" "c\xc2" "e"; }
	return stl::file(stl::Gsi(), t);
}

static string const srt = "1\n00:00:01,000 --> 00:00:02,500\n<i>one</i>\n{\\pos(10,20.5)}two<font color=\"#ff0000\">x</font>\n\n2\n00:00:03,000 --> 00:00:04,500\nthree\n";
static string const text = "$FontName=Arial\n$FontSize=12\n//x\n00:00:01:00 , 00:00:02:12 , plain|^Iitalic^I\n00:00:03:00 , 00:00:04:12 , b\n";

static vector<string> const& contents()
{
	static vector<string> const c = {srt, text, binary(), "", "1\n", "xyzSTL", "850STL25.01", "850STL99.01" + binary().substr(11), "1\n00:00:01,000 --> x\n", "\xef\xbb\xbf" + srt, "// STL25.01\n" + text, "01:STL25.01,00:00:01:00,x\n"};
	return c;
}

static void names(mc::Ctx& c)
{
	static vector<string> const dirs = {"", "d/", "d.srt/", "D.STL/", "d/e.stl/", "d/../", "./", "a c/", "d//"};
	static vector<string> const stems = {"a", "a.b", "a.srt", "a.stl", "a b", "\xc3\xa9", "srt", "stl", "-a", "a.", "..a", "%s"};
	static vector<string> const others = {"", ".", ".sr", ".srtx", ".sub", ".txt", ".ssa", ".ass", ".vtt", ".stlx", ".st", ".xstl", ".srt ", ".stl ", ".srt.", ".stl~", ".srt.bak", ".stl.gz", "srt", "stl", ".\xc5\x9frt", ".lts", ".trs", ".mkv", ".srt.stl.x"};
	auto& d = c.of(dirs);
	auto& s = c.of(stems);
	int const e = c.pick(16 + others.size());
	auto& content = c.of(contents());
	if (!c.go()) return;
	string ext = e < 16 ? e & 8 ? ".srt" : ".stl" : others[e - 16];
	if (e < 16) for (int i = 0; i < 3; ++i) if (e & (1 << i)) ext[i + 1] = toupper(ext[i + 1]);
	string const path = dir() + "/" + d + s + ext;
	for (auto i: {"/d", "/d.srt", "/D.STL", "/d/e.stl", "/a c"}) mkdir((dir() + i).c_str(), 0777);
	put(path, content);
	c.input(d + s + ext + " containing " + content.substr(0, 300));
	string const base = s + ext;
	string low = base.substr(std::min(base.size(), base.rfind('.')));
	for (auto& ch: low) ch = ch >= 'A' && ch <= 'Z' ? ch + 32 : ch;
	int kind = low == ".srt" ? (int) SUBRIP : low == ".stl" ? by_content(content) : (int) NONE;
	run(c, path, kind, content);
	unlink(path.c_str());
}

/** Every length of every kind of content, and every value of the bytes which decide */
static void lengths(mc::Ctx& c)
{
	static vector<string> const docs = {binary(2), text + text, srt};
	int const how = c.pick(2), which = c.pick(3), srt_name = c.pick(2);
	int const i = how ? c.pick(13) : c.pick(1024 + 256 + 2), b = how ? c.pick(256) : 0;
	if (!c.go()) return;
	string d = docs[which];
	if (how) {
		d[i] = (char) b;
	} else {
		if (i > (int) d.size()) return;
		d = d.substr(0, i);
	}
	string const path = dir() + (srt_name ? "/x.srt" : "/x.stl");
	put(path, d);
	c.input((srt_name ? "x.srt: " : "x.stl: ") + d);
	run(c, path, srt_name ? (int) SUBRIP : by_content(d), d);
}

/** Every combination of letters in the disk format code of a file of every small length */
static void short_files(mc::Ctx& c)
{
	static string const alphabet = "STL\n,:0";
	int const n = c.pick(c.thorough() ? 14 : 13);
	string d;
	for (int i = 0; i < n; ++i) d += i < 3 ? '0' : i < 7 ? alphabet[c.pick(alphabet.size())] : '1';
	bool const tail = n == 12 && c.pick(2);
	if (!c.go()) return;
	if (tail) d += "," + d + "\n" + text;
	string const path = dir() + "/x.stl";
	put(path, d);
	c.input("x.stl: " + d);
	run(c, path, by_content(d), d);
}

/** Documents of every kind from pieces, some malformed */
static string document(mc::Ctx& c, int max, string& ext)
{
	static vector<string> const srts = {"1\n00:00:01,000 --> 00:00:02,500\na\n\n", "<i>b\n<u>c</i>d\n", "<font color=\"#ff0000\">e</font>f\n", "{\\an8\\pos(1.5,2)\\fs12}g\n", "\n", "2\nx\n", "3\n00:00:01,000 --> y\n", "<font color=\"rgba(1,2,3,4)\">h<font color=x>\n", "\xe2\x80\xa8h a long line which will not fit in a small string\n"};
	static vector<string> const texts = {"$FontName=Arial the long name of a font that will not fit in a small string\n", "$FontSize=12\n", "$FontSize=x\n", "00:00:01:00 , 00:00:02:12 , plain|^Iitalic^I\n", "00:00:01:00 , 00:00:02:12 , a long line which will not fit in a small string\n", "00:00:01:00 , x , plain|^Iitalic^I\n", "nonsense\n", "//\n"};
	int const k = c.pick(3);
	int const n = c.pick(max + 1);
	string d;
	if (k == 0) {
		ext = ".srt";
		for (int i = 0; i < n; ++i) d += c.of(srts);
	} else if (k == 1) {
		ext = ".stl";
		for (int i = 0; i < n; ++i) d += c.of(texts);
	} else {
		ext = ".stl";
		static vector<string> const ttis = {"a", "\x80" "a\x81\x82" "b", "a\x8a\x8a" "b", "\xc2" "e\xc8o\xff\xc8", "a long line which will not fit in a small string\x8a\xd3"};
		vector<stl::Tti> t(n);
		for (int i = 0; i < n; ++i) { t[i].sn = i; t[i].in.m = t[i].out.m = i; t[i].text = c.of(ttis); }
		stl::Gsi g;
		int const bad = c.pick(4);
		if (bad == 1) g.v["DSC"] = "9";
		if (bad == 2) g.v["DFC"] = "STL99.01";
		d = stl::file(g, t);
		if (bad == 3) d.pop_back();
	}
	return d;
}

/** Nothing is left after reading anything */
static void leaks(mc::Ctx& c, int max)
{
	string ext;
	string const d = document(c, max, ext);
	if (!c.go()) return;
	string const path = dir() + "/x" + ext;
	put(path, d);
	c.input("x" + ext + ": " + d);
	run(c, path, ext == ".srt" ? (int) SUBRIP : by_content(d), d);
}

/** Make each allocation in turn fail */
static void failures(mc::Ctx& c, int max)
{
	string ext;
	string const d = document(c, max, ext);
	if (!c.go()) return;
	boost::filesystem::path const path = dir() + "/x" + ext;
	put(path.string(), d);
	string const want = open_result(path.string(), false);
	bool const bad = want.compare(0, 5, "ERROR") == 0;
	for (int n = 0; ; ++n) {
		c.input(mc::format("allocation %d fails in x", n) + ext + ": " + d);
		bool failed = false;
		string got;
		balanced(c, [&]() {
			std::shared_ptr<sub::Reader> r;
			bool thrown = false;
			count = 0;
			fail_at = n;
			try {
				r = sub::reader_factory(path);
			} catch (std::exception& e) {
				thrown = true;
			}
			failed = count > n;
			fail_at = -1;
			if (!thrown) got = r ? type(r) + "\n" + show_reader(*r) : type(r);
			else got = "";
		});
		c.step();
		if (!got.empty()) {
			c.check(!bad && got == want, "contents", mc::format("when allocation %d fails it gives\n", n) + got + "\nrather than\n" + want);
			c.outcome(mc::hash(got));
		}
		if (!failed) {
			c.state(mc::hash(mc::format("%d", n) + want));
			break;
		}
	}
	c.compared();
}

/** Files which cannot be opened are not empty ones */
static void missing(mc::Ctx& c)
{
	static vector<string> const names = {"no.srt", "no.stl", "NO.STL", "no.SRT", "no/x.srt", "no/x.stl", "f/x.stl", "f/x.srt", "loop.srt", "loop.stl", "dangling.stl", "dangling.srt"};
	auto& n = c.of(names);
	if (!c.go()) return;
	put(dir() + "/f", "x");
	if (symlink("loop.srt", (dir() + "/loop.srt").c_str())) {}
	if (symlink("loop.stl", (dir() + "/loop.stl").c_str())) {}
	if (symlink("gone", (dir() + "/dangling.srt").c_str())) {}
	if (symlink("gone", (dir() + "/dangling.stl").c_str())) {}
	c.input(n + ", which cannot be opened");
	string got;
	balanced(c, [&]() { got = open_result(dir() + "/" + n); });
	c.step();
	c.state(mc::hash(got));
	c.outcome(mc::hash(got));
	c.check(got.compare(0, 5, "ERROR") == 0, "missing", "opening it gives " + got + "\nrather than an error");
	c.compared();
}

/** Relative names, with and without dots, of files which are there */
static void relative(mc::Ctx& c)
{
	static vector<string> const dirs = {"", "r/", "r.srt/", "r.stl/", "../", "./", "r/../r/"};
	static vector<string> const stems = {"a", "foo", "srt", "stl", "a.b"};
	static vector<string> const exts = {"", ".srt", ".stl", ".SRT", ".Stl", ".txt", "srt", "."};
	auto& d = c.of(dirs);
	auto& s = c.of(stems);
	auto& e = c.of(exts);
	auto& content = c.of(contents());
	if (!c.go()) return;
	string const base = dir() + "/relative";
	for (auto i: {"", "/r", "/r.srt", "/r.stl", "/here"}) mkdir((base + i).c_str(), 0777);
	string const cwd = d == "../" ? base + "/here" : base;
	if (chdir(cwd.c_str())) { perror(cwd.c_str()); abort(); }
	string const path = d + s + e;
	put(path, content);
	c.input("(in the current directory) " + path + " containing " + content.substr(0, 300));
	string low = e;
	for (auto& ch: low) ch = tolower(ch);
	run(c, path, low == ".srt" ? (int) SUBRIP : low == ".stl" ? by_content(content) : (int) NONE, content);
	unlink(path.c_str());
	if (chdir("/")) abort();
}

int main(int argc, char** argv)
{
	std::cout.rdbuf(nullptr);
	mc::Options o;
	o.property = "C18";
	return mc::main(argc, argv, o, {
		{"names", 0, 0, names},
		{"relative", 0, 0, relative},
		{"lengths", 0, 0, lengths},
		{"short-files", 0, 0, short_files},
		{"leaks", 0, 0, [](mc::Ctx& c) { leaks(c, c.thorough() ? 6 : 5); }},
		{"failures", 0, 0, [](mc::Ctx& c) { failures(c, c.thorough() ? 5 : 4); }},
		{"missing", 0, 0, missing},
	}, "9 directories x 12 stems x 41 extensions (srt and stl in every case) x 12 contents; 280 relative names x 12 contents; every length of each kind of content and every value of each of its first 13 bytes; every sequence of 7 characters in bytes 3 to 6 of files of every length up to 12; every document of up to 5 (thorough 6) parts with the balance of allocations and descriptors; every failing allocation in reading every document of up to 4 (5) parts; 12 kinds of file which cannot be opened",
	{"a file which is too short for a complete disk format code but starts like one may be taken as either kind", "allocations are those made with malloc and operator new"});
}
