/* C13: no input makes a reader crash, hang or corrupt memory.
 *
 * Runs with address and undefined behaviour sanitizers.  operator new and delete are our own: they fill memory
 * with a pattern, so that the use of uninitialised memory shows as a result that depends on the pattern, and check
 * that new goes with delete and new[] with delete[].
 */
#include "source.h"
#include "stl_model.h"
#include "collect.h"
#include "util.h"
#include <iostream>
#include <new>
#include <sys/resource.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b)
#define ASAN_UNPOISON_MEMORY_REGION(a, b)
#endif

using namespace src;

static int fill = 0xa5;
struct Head { size_t magic, size; };
static size_t const SCALAR = 0x5ca1a7, ARRAY = 0xa77a1;

static uint64_t allocated = 0;

static void* get(size_t n, size_t magic)
{
	allocated += n;
	auto h = static_cast<Head*>(malloc(n + sizeof(Head)));
	if (!h) throw std::bad_alloc();
	h->magic = magic;
	h->size = n;
	memset(h + 1, fill, n);
	ASAN_POISON_MEMORY_REGION(h, sizeof(Head));
	return h + 1;
}

static void put(void* p, size_t magic)
{
	if (!p) return;
	auto h = static_cast<Head*>(p) - 1;
	ASAN_UNPOISON_MEMORY_REGION(h, sizeof(Head));
	if (h->magic != magic) {
		fprintf(stderr, "memory freed twice or with the wrong kind of delete\n");
		abort();
	}
	h->magic = 0;
	memset(p, fill ^ 0xff, h->size);
	free(h);
}

void* operator new(size_t n) { return get(n, SCALAR); }
void* operator new[](size_t n) { return get(n, ARRAY); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return get(n, SCALAR); } catch (...) { return nullptr; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return get(n, ARRAY); } catch (...) { return nullptr; } }
void operator delete(void* p) noexcept { put(p, SCALAR); }
void operator delete[](void* p) noexcept { put(p, ARRAY); }
void operator delete(void* p, size_t) noexcept { put(p, SCALAR); }
void operator delete[](void* p, size_t) noexcept { put(p, ARRAY); }

__attribute__((noinline)) static void dirty_stack()
{
	char b[32768];
	memset(b, fill, sizeof b);
	asm volatile("" : : "r"(b) : "memory");
}

static string try_(const std::function<string ()>& f) { return outcome(f); }

/** Do everything that can be done with what was read */
static string use(const std::shared_ptr<sub::Reader>& r)
{
	string o = show_reader(*r);
	auto const raw = r->subtitles();
	for (auto& i: raw) {
		o += mc::format("%g ", i.vertical_position.fraction_from_screen_top());
		if (i.font_size.specified()) o += mc::format("%g %d ", i.font_size.proportional(288), i.font_size.points(288));
		for (auto t: {i.from, i.to}) {
			o += try_([&]() { return mc::format("%d:%d:%d ", t.hours(), t.minutes(), t.seconds()); });
			o += try_([&]() { return mc::format("%d ", t.milliseconds()); });
			o += try_([&]() { return mc::format("%g ", t.all_as_seconds()); });
			o += try_([&]() { return mc::format("%d%d%d%d ", t < i.from, t > i.to, t == i.from, t != i.to); });
		}
		o += mc::format("%d %d %d ", i.vertical_position == raw[0].vertical_position, i.vertical_position < raw[0].vertical_position, i.horizontal_position == raw[0].horizontal_position);
	}
	o += try_([&]() { return mc::format("%zu ", sub::collect<vector<sub::Subtitle>>(raw).size()); });
	o += try_([&]() {
		std::ostringstream s;
		sub::dump(r, s);
		return s.str();
	});
	return o;
}

static string result(mc::Ctx& c, const std::function<std::shared_ptr<sub::Reader> ()>& make)
{
	dirty_stack();
	try {
		return outcome([&]() { return use(make()); });
	} catch (...) {
		c.fail("not-a-std-exception", "something which is not a std::exception was thrown");
	}
}

static void run(mc::Ctx& c, Kind k, const string& d)
{
	c.input(string(kind_names[k]) + ": " + d);
	c.state(mc::hash(d, k));
	string r[2];
	for (int i = 0; i < 2; ++i) {
		fill = i ? 0x5a : 0xa5;
		if (i && k != STL_TEXT) {
			Feed f{d, {{}, -1}};
			FILE* file = open(f);
			r[i] = result(c, [&]() { return from_file(k, file); });
			fclose(file);
		} else {
			r[i] = result(c, [&]() { return from_string(k, d); });
		}
	}
	c.check(r[0] == r[1], "uninitialised-memory", "with memory filled with A5h it is\n" + r[0].substr(0, 6000) + "\nbut with 5Ah\n" + r[1].substr(0, 6000));
	c.step();
	c.outcome(mc::hash(r[0]));
	c.compared();
}

/* Tokens and the documents that they are put in (at the X) */
struct Tokens { Kind kind; vector<string> frames, tokens; };

static vector<Tokens> const tokens = {
	{SUBRIP, {"X", "1\n00:00:01,000 --> 00:00:02,500\nX\n", "1\n00:00:01,000 --> 00:00:02,500\n<font color=\"#X\">", "1\nX --> X\na\n"},
	 {"a", "<", ">", "{", "}", "</", "<b>", "</i>", "<font", " color=", "\"", "#", "ff0000", "rgba(", "1,2,3", ")", "</font>", "{\\", "\\i", "\\c", "\\pos(", "\\an9", "\\fs", "\\fs12", "&H", "&Hff&", "\xe2\x80\xa8", "\xe2\x80\xab", "\xef\xbb\xbf", "\n", "\r", " ", "00:00:01,000", " --> ", ":", ",", "-1", "99999999999", string(1, '\0'), "\xff", "\xe2"}},
	{VTT, {"X", "WEBVTT\nX", "WEBVTT\n\n00:00:01.000 --> 00:00:02.500\nX", "WEBVTT\n\nX --> X\na\n"},
	 {"a", "NOTE", "WEBVTT", "-->", " --> ", " ", "00:00:01.000", "00:00:01.", "\n", "\n\n", "\r", "\xe2\x80\xa8", "\xef\xbb\xbf", ":", ".", "-1", "99999999999", string(1, '\0'), "\xff"}},
	{SSA, {"X", "[V4 Styles]\nFormat: Name,Fontsize,X\nStyle: Default,X\n", "[Events]\nFormat: Start,End,Text\nDialogue: 0:0:1.0,0:0:2.5,X\n", "[Script Info]\nPlayResY: X\n[V4 Styles]\nFormat: Name,Fontsize,MarginL\nStyle: Default,X,X\n[Events]\nFormat: Style,Start,End,Text\nDialogue: Default,0:0:1.0,0:0:2.5,a\\Nb{\\fs3}c\\nd\n",
	       "[Events]\nFormat: Start,X,Text\nDialogue: X,0:0:1.0,a\n", "[V4 Styles]\nX\n[Events]\nX"},
	 {"a", "[", "]", ";", ":", ",", ".", "\n", "\\", "\\n", "\\N", "{", "}", "{\\", "\\i1", "\\an5", "\\an", "\\a", "\\pos(1,2)", "\\pos(", "\\pos()", "\\fs", "\\fs0", "\\c", "\\c&", "\\cx", "&H", "&Hff&", "&H00ff00ff", "0", "-1", "1e99", "99999999999", "Format:", "Format: Text", "Style:", "Dialogue:", "Text", "Style", "PrimaryColour", "Fontsize", "End", "MarginV", "Alignment", "[Events]", "\xef\xbb\xbf", " ", string(1, '\0'), "\xff"}},
	{STL_TEXT, {"X", "0:0:1:2,0:0:3:4,X\n", "$X=X\n0:0:1:2,0:0:3:4,a\n", "X,X,a\n"},
	 {"a", "//", "$", "=", ",", ":", "^", "^B", "^I", "^x", "|", "\n", "\r", " ", "$FontSize", "FontSize", "$Bold=True", "FontName", "0:0:1:2", "0:0:3:4,", "-1", "99999999999", "2147483647", "1e9", "\xef\xbb\xbf", string(1, '\0'), "\xff", "\xc2\xa0"}},
};

static string put_in(const string& frame, const vector<string>& t)
{
	/* The first X is all of the tokens; if there are more, the last token goes in the other ones alone */
	string all, d;
	for (auto& i: t) all += i;
	int n = 0;
	for (char ch: frame) {
		if (ch == 'X') d += n++ && !t.empty() ? t.back() : all;
		else d += ch;
	}
	return d;
}

static void sequences(mc::Ctx& c, int max)
{
	auto& f = c.of(tokens);
	auto& frame = c.of(f.frames);
	int n = c.pick(max + 1);
	vector<string> t;
	for (int i = 0; i < n; ++i) t.push_back(c.of(f.tokens));
	if (!c.go()) return;
	run(c, f.kind, put_in(frame, t));
}

/** Numbers of every kind wherever there can be one */
static vector<string> const numbers = {"", "0", "-0", "1", "-1", "+1", " 1", "1 ", "007", "1.5", "1,5", ".5", "5.", "-", "+", ".", "e", "1e5", "1e400", "1e-400", "-1e400", "nan", "-nan", "inf", "-inf", "0x10", "1x", "x1", "255", "256", "32767", "65536",
	"595000", "596523", "596524", "1000000", "-596524", "35791394", "35791395", "2147483646", "2147483647", "2147483648", "-2147483647", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551616", "99999999999999999999999999",
	"\xd9\xa1", "\xc2\xb9", "\xc2\xa0", string(1, '\0'), "1" + string(1, '\0'), "1_000", "1'000", "1e", "1f", "1d", "0x", "0xg", "true", "&H1", "#1"};

struct Places { Kind kind; string doc; };
static vector<Places> const places = {
	{SUBRIP, "@\n@:@:@,@ --> @:@:@,@\na{\\fs@\\an@\\pos(@,@)\\c&H@&\\i@}b<font color=\"#@\">c\n"},
	{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500 X1:@ X2:@ Y1:@ Y2:@\n<font color=\"rgba(@,@,@,@)\">x\n"},
	{VTT, "WEBVTT\n\n@:@:@.@ --> @:@:@.@ line:@\na\n"},
	{SSA, "[Script Info]\nPlayResX: @\nPlayResY: @\n[V4 Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\nStyle: Default,a,@,@,&H@,@,@,@,@,@,@,@,@\n"
	      "[Events]\nFormat: Layer,Start,End,Style,MarginL,MarginR,MarginV,Text\nDialogue: @,@:@:@.@,@:@:@.@,Default,@,@,@,a{\\fs@\\an@}b\\Nc{\\pos(@,@)\\c&H@&\\i@}d\n"},
	{STL_TEXT, "$FontSize = @\n$Bold = @\n@:@:@:@,@:@:@:@,a\n"},
};

static void extremes(mc::Ctx& c, int how)
{
	auto& f = c.of(places);
	int n = std::count(f.doc.begin(), f.doc.end(), '@');
	/* how 0: one number is unusual, 1: two are, 2: all the same */
	int const a = how < 2 ? c.pick(n) : -1, b = how == 1 ? a + c.pick(n - a) : a;
	auto& x = c.of(numbers);
	auto& y = how == 1 ? c.of(numbers) : x;
	if (!c.go()) return;
	string d;
	int k = 0;
	for (char ch: f.doc) {
		if (ch != '@') { d += ch; continue; }
		d += how == 2 || k == a ? x : k == b ? y : "1";
		++k;
	}
	run(c, f.kind, d);
}

/** Changes to good documents */
static const vector<Places>& good()
{
	static vector<Places> const v = []() {
		vector<stl::Tti> t(2);
		t[0].text = "\x80" "a\x8a" "b\xc2" "e\x81";
		t[1].sn = 1;
		t[1].text = string(112, 'x');
		stl::Tti u;
		u.sn = 1;
		u.text = "\x82" "c";
		t[1].ebn = 0;
		t.push_back(u);
		return vector<Places>{
			{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\n<i>a</i><font color=\"#ff0000\">b</font>{\\i1\\c&Hff&\\pos(1,2)}\xe2\x80\xa8""c\n\n2\n00:00:03,000 --> 00:00:04,500 X1:1 X2:2 Y1:3 Y2:4\n<font color=\"rgba(1, 2,3,4)\">d\n"},
			{VTT, "WEBVTT\n\nNOTE x\ny\n\nid\n00:00:01.000 --> 00:00:02.500 line:1\na\xe2\x80\xa8""b\nc\n"},
			{SSA, "[Script Info]\nPlayResX: 100\nPlayResY: 200\n[V4+ Styles]\nFormat: Name, Fontsize, PrimaryColour, Bold, Alignment, MarginL, MarginV\nStyle: Default,20,&H00ff00ff,-1,5,1,2\n[Events]\nFormat: Start, End, Style, MarginV, Text\nDialogue: 0:00:01.00,0:00:02.50,*Default,3,a\\N{\\i1\\fs3\\an9}b,{\\pos(1,2)\\c&Hff00ff&\\c}c\n"},
			{STL_TEXT, "//c\n$FontName = Arial\n$Bold=True\n$FontSize = 12\n00:00:01:02 , 00:00:03:04 , te^Ix|t\n"},
			{STL_BINARY, stl::file(stl::Gsi(), t)},
		};
	}();
	return v;
}

static void edits(mc::Ctx& c)
{
	auto& f = c.of(good());
	int const n = f.doc.size();
	int const kind = c.pick(5);
	string d = f.doc;
	if (kind == 0) {
		static const string some = string(1, '\0') + "\n\x8f\xff,-05 9:A\r\t!\"#$&'()*+./;<=>@NX[\\]^_bfiu{|}\x7f\x80\x8a\xc2\xe2";
		int i = c.pick(n);
		if (c.thorough()) d[i] = (char) c.pick(256);
		else d[i] = some[c.pick(f.kind == STL_BINARY && i < 1024 ? 8 : f.kind == STL_BINARY ? 30 : (int) some.size())];
	} else if (kind == 1) {
		/* unused space in the header block is not interesting twice */
		int i = c.pick(n + 1);
		static const string ins = string(1, '\0') + "\n\x8f\r\\{}<>:,;[]\"#&$^|\x8a\xff";
		int b = c.pick(f.kind == STL_BINARY && !c.thorough() ? 2 : ins.size());
		d.insert(i, 1, ins[b]);
	} else if (kind == 2) {
		int i = c.pick(n), m = c.pick(3);
		d.erase(i, m == 0 ? 1 : m == 1 ? 2 : n);
	} else if (kind == 3) {
		int i = c.pick(n);
		d.erase(0, i);
	} else {
		/* a piece is there twice or has gone */
		int const s = f.kind == STL_BINARY ? 64 : 12;
		int i = c.pick(n / s), j = c.pick(n / s + 1);
		if (i <= j) d.insert(j * s, d.substr(i * s, (j - i) * s)); else d.erase(j * s, (i - j) * s);
	}
	if (!c.go()) return;
	run(c, f.kind, d);
}

static void two_edits(mc::Ctx& c)
{
	auto& f = c.of(good());
	int const n = f.doc.size();
	static const string set = string(1, '\0') + "\n\\{}<:,9-\x8f\x8a\xff";
	string d = f.doc;
	int i = c.pick(n), a = c.pick(set.size()), j = i + c.pick(std::min(n - i, f.kind == STL_BINARY ? 4 : 40)), b = c.pick(set.size());
	d[i] = set[a];
	d[j] = set[b];
	if (!c.go()) return;
	run(c, f.kind, d);
}

/** Header and block fields of binary files in combination */
static void fields(mc::Ctx& c)
{
	static vector<string> const ns = {"", "0", "1", "2", "3", "99999", "-1", "x", string(5, '\0'), "    1", "00001", "+2"};
	stl::Gsi g;
	bool const t_ = c.thorough();
	string tnb = c.of(ns);
	g.v["MNR"] = c.of(t_ ? vector<string>{"00", "01", "23", "99", "-1", "  ", "\xff\xff"} : vector<string>{"00", "23", "-1"});
	g.v["DFC"] = c.of(t_ ? vector<string>{"STL25.01", "STL30.01", "STL23.01", "STL", "STL99.01"} : vector<string>{"STL25.01", "STL"});
	if (c.thorough()) g.v["TNS"] = c.of(ns);
	int const k = c.pick(4);
	vector<stl::Tti> t(k);
	for (int i = 0; i < k; ++i) {
		t[i].vp = i == 0 ? c.of(vector<int>{0, 1, 23, 255}) : 20;
		t[i].sn = i / 2;
		t[i].ebn = i % 2 ? 0xff : c.of(vector<int>{0, 0xff, 0xfe, 0xf0});
		t[i].text = string(i == 2 ? 112 : 3, 'a');
	}
	if (!c.go()) return;
	string d = stl::file(g, t);
	g.v["TNB"] = tnb;
	d.replace(0, 1024, g.bytes());
	run(c, STL_BINARY, d);
}

/** All sequences of bytes in the text of a block */
static void texts(mc::Ctx& c, int max)
{
	static vector<string> const ts = []() {
		vector<string> v;
		for (int i = 0; i < 256; ++i) v.push_back(string(1, (char) i));
		return v;
	}();
	int const n = c.pick(max + 1), where = c.pick(3);
	string x;
	for (int i = 0; i < n; ++i) x += c.of(ts);
	if (!c.go()) return;
	vector<stl::Tti> t(1);
	/* at the beginning, alone, at the end of the field */
	t[0].text = where == 0 ? x + "abc" : where == 1 ? x : string(112 - n, 'a') + x;
	run(c, STL_BINARY, stl::file(stl::Gsi(), t));
}

/** All short byte strings */
static void strings(mc::Ctx& c, int max)
{
	int const k = c.pick(4), n = c.pick(max + 1);
	string d;
	for (int i = 0; i < n; ++i) d += (char) c.pick(256);
	if (!c.go()) return;
	run(c, (Kind) k, d);
}

static double cpu()
{
	struct timespec t;
	clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t);
	return t.tv_sec + t.tv_nsec * 1e-9;
}

static double cost(Kind k, const string& d)
{
	double best = 1e9;
	double const a = cpu();
	try { use(from_string(k, d)); } catch (std::exception&) {}
	best = std::min(best, cpu() - a);
	return best;
}

/** Time is proportional to the size of the input: runs of tokens and of pairs of tokens */
static void time_taken(mc::Ctx& c, bool pairs)
{
	auto& f = c.of(tokens);
	auto& frame = c.of(f.frames);
	string t = c.of(f.tokens);
	if (pairs) t += c.of(f.tokens);
	if (!c.go()) return;
	auto make = [&](int n) {
		string d;
		bool first = true;
		for (char ch: frame) {
			if (ch == 'X' && first) {
				for (int i = 0; i < n; ++i) d += t;
				first = false;
			} else if (ch != 'X') {
				d += ch;
			}
		}
		return d;
	};
	c.input(string(kind_names[f.kind]) + ": " + frame + " with a run of " + t);
	fill = 0;
	int n = 256;
	double small = 0;
	while (n * t.size() < 65536) {
		small = cost(f.kind, make(n));
		if (small > 0.01) break;
		n *= 2;
	}
	/* memory asked for is an exact measure of the copying done */
	uint64_t const a = allocated;
	cost(f.kind, make(n));
	uint64_t const b = allocated;
	double large = cost(f.kind, make(n * 8));
	uint64_t const d = allocated;
	c.check(d - b <= 24 * (b - a) || d - b < 1 << 20, "memory", mc::format("%d need %llu bytes, %d need %llu", n, (unsigned long long) (b - a), n * 8, (unsigned long long) (d - b)));
	/* proportional is 8 times, square is 64 times */
	for (int i = 0; i < 4 && large > 30 * small; ++i) {
		small = std::max(small, cost(f.kind, make(n)));
		large = std::min(large, cost(f.kind, make(n * 8)));
	}
	c.check(large <= 30 * small || large < 0.1, "time", mc::format("%d takes %.4fs, %d takes %.4fs", n, small, n * 8, large));
	c.step();
	c.compared();
}

int main(int argc, char** argv)
{
	std::cout.rdbuf(nullptr);
	mc::Options o;
	o.property = "C13";
	o.hang_seconds = 30;
	return mc::main(argc, argv, o, {
		{"tokens", 0, 0, [](mc::Ctx& c) { sequences(c, c.thorough() ? 3 : 2); }},
		{"numbers", 0, 0, [](mc::Ctx& c) { extremes(c, 0); }},
		{"pairs-of-numbers", -1, 0, [](mc::Ctx& c) { extremes(c, 1); }},
		{"same-numbers", 0, 0, [](mc::Ctx& c) { extremes(c, 2); }},
		{"edits", 0, 0, edits},
		{"two-edits", -1, 0, two_edits},
		{"fields", 0, 0, fields},
		{"texts", 0, 0, [](mc::Ctx& c) { texts(c, c.thorough() ? 2 : 1); }},
		{"strings", 0, 0, [](mc::Ctx& c) { strings(c, c.thorough() ? 2 : 1); }},
		{"time", 0, 0, [](mc::Ctx& c) { time_taken(c, false); }},
		{"time-pairs", -1, 0, [](mc::Ctx& c) { time_taken(c, true); }},
	}, "all sequences of up to 2 (thorough 3) tokens in 20 places of documents for 4 text readers; every number of 64 (pair of numbers) in every numeric place; every byte of 5 good documents replaced by each of 30-60 (256) values, each insertion, deletion, truncation, duplication (pairs of replacements); header fields x blocks; every byte (pair) in a text field; every byte string of length up to 1 (2); time for runs of every token (pair of tokens).  Each is read from a string and from a file, collected, dumped, converted and compared, under address and undefined behaviour sanitizers, with memory pre-filled with two different patterns",
	{"taking more than 30 times as long for 8 times the input is not proportional (square would be 64 times)", "uninitialised memory is seen if the result depends on the pattern in it"});
}
