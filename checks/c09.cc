/* C09: conversion to and from ISO 6937 */
#include "mc.h"
#include "iso6937_model.h"
#include "iso6937.h"

using std::string;
using std::wstring;
using std::vector;

static string show(const wstring& w)
{
	string s;
	for (auto c: w) s += mc::format("U+%04lX ", (unsigned long) c);
	return s;
}

static void decode(mc::Ctx& c, const string& s)
{
	c.input("decode " + mc::show(s));
	wstring const want = iso::decode(s), got = sub::iso6937_to_utf16(s);
	c.step();
	if (want != got) {
		c.fail("decode", "decoding gives " + show(got) + "instead of " + show(want));
	}
	c.compared();
	uint64_t h = mc::hash_bytes(want.data(), want.size() * sizeof(wchar_t));
	c.state(h);
	c.outcome(h);
}

static void encode(mc::Ctx& c, const wstring& s)
{
	c.input("encode " + show(s));
	string const e = sub::utf16_to_iso6937(s);
	/* what the bytes mean, according to the table */
	wstring const want = iso::round_trip(s), got = iso::decode(e);
	c.step();
	if (want != got) {
		c.fail("encode", "encoding gives " + mc::show(e) + ", which is " + show(got) + "instead of " + show(want));
	}
	for (unsigned char b: e) {
		if (!oracle::main[b] && !iso::is_mark(b)) c.fail("encode-bytes", "encoding has an undefined code: " + mc::show(e));
	}
	/* and according to the code */
	wstring const back = sub::iso6937_to_utf16(e);
	if (back != want) {
		c.fail("round-trip", "encoding and decoding gives " + show(back) + "instead of " + show(want));
	}
	c.compared();
	uint64_t h = mc::hash(e);
	c.state(h);
	c.outcome(h);
}

static void bytes1(mc::Ctx& c)
{
	int n = c.pick(3);
	string s;
	for (int i = 0; i < n; ++i) s += (char) (1 + c.pick(255));
	int where = c.pick(4);
	if (!c.go()) return;
	if (where & 1) s = "A" + s;
	if (where & 2) s = s + "ez";
	decode(c, s);
}

static void bytes3(mc::Ctx& c, bool all)
{
	string s;
	int m = all ? 1 + c.pick(255) : 0xc0 + c.pick(16);
	s += (char) m;
	s += (char) (1 + c.pick(255));
	s += (char) (1 + c.pick(255));
	if (!c.go()) return;
	decode(c, s);
}

static const vector<string>& symbols()
{
	static const vector<string> s = {"e", "\xc2", "\xc8", "\xcb", "\xcc", "\xc9", "\xc0", "\xe1", "\xa0", "\x80", "z", "\n", " "};
	return s;
}

static void sequences(mc::Ctx& c, int max)
{
	int n = 1 + c.pick(max);
	string s;
	for (int i = 0; i < n; ++i) s += c.of(symbols());
	if (!c.go()) return;
	decode(c, s);
}

static void code_points(mc::Ctx& c)
{
	/* 0x110000 code points, in 0x1100 blocks of 256 so that there are not too many executions */
	int block = c.pick(0x1100), where = c.pick(3);
	if (!c.go()) return;
	for (int i = 0; i < 256; ++i) {
		wchar_t u = (wchar_t) (block * 256 + i);
		if (!u) continue;
		wstring s(1, u);
		if (where == 1) s = L"ab" + s + L"cd";
		if (where == 2) s = s + s + L"e" + s;
		encode(c, s);
	}
}

static void pairs(mc::Ctx& c)
{
	static vector<int> a;
	if (a.empty()) {
		a = iso::repertoire();
		for (auto& m: oracle::marks) a.push_back(m.combining);
		for (int x: {0x201e, 0x2013, 0x2014, 0x2010, 0x2011, 0x2012, 0x2032, 0xa0, 0x1f600, 0x32b, 0x20ac, 1, 0x80, 0x9f, 0x7f, 0x1cd}) a.push_back(x);
	}
	int x = c.of(a), y = c.of(a);
	if (!c.go()) return;
	wstring s;
	s += (wchar_t) x;
	s += (wchar_t) y;
	encode(c, s);
}

static void wide(mc::Ctx& c, int max)
{
	static const vector<int> a = {'a', 'e', 0x301, 0x308, 0x328, 0xe9, 0x2014, 0x20ac, 'x', ' ', '$', 0x201e};
	int n = 1 + c.pick(max);
	wstring s;
	for (int i = 0; i < n; ++i) s += (wchar_t) c.of(a);
	if (!c.go()) return;
	encode(c, s);
}

/** Results do not depend on the conversions made before: all sequences of calls, in one process */
static void histories(mc::Ctx& c, int max)
{
	static const vector<string> d = {"", "e", "\xc2", "\xc2" "e", "\xcc" "e", "\xc0", "\xff", "\xc8q", "\xa4", "\x80"};
	static const vector<wstring> e = {L"", L"e", L"\u00e9", L"e\u0301", L"\u0301", L"\u20ac", L"$", L"\u201e\u2014", L"\u0149", L"\u0123"};
	int n = 2 + c.pick(max - 1);
	vector<int> h;
	for (int i = 0; i < n; ++i) h.push_back(c.pick(20));
	if (!c.go()) return;
	for (int i: h) {
		if (i < 10) decode(c, d[i]); else encode(c, e[i - 10]);
	}
}

/** Long texts */
static void lengths(mc::Ctx& c, int max)
{
	int kind = c.pick(3), n = max ? 1 + c.pick(max) : c.of(mc::big_sizes());
	if (!c.go()) return;
	wstring w;
	auto const& r = iso::repertoire();
	for (int i = 0; i < n; ++i) {
		if (kind == 0) w += (wchar_t) r[(i * 7) % r.size()];
		if (kind == 1) w += (i % 3) ? L'\u00e9' : L'x';
		if (kind == 2) { w += L'o'; w += L'\u0308'; }
	}
	encode(c, w);
	decode(c, iso::encode(kind == 2 ? iso::round_trip(w) : w));
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C09";
	return mc::main(argc, argv, o, {
		{"byte-pairs", 0, 0, bytes1},
		{"mark-and-2-bytes", 0, -1, [](mc::Ctx& c) { bytes3(c, false); }},
		{"3-bytes", -1, 0, [](mc::Ctx& c) { bytes3(c, true); }},
		{"byte-sequences", 0, 0, [](mc::Ctx& c) { sequences(c, c.thorough() ? 7 : 6); }},
		{"code-points", 0, 0, code_points},
		{"character-pairs", 0, 0, pairs},
		{"character-sequences", 0, 0, [](mc::Ctx& c) { wide(c, c.thorough() ? 7 : 6); }},
		{"histories", 0, 0, [](mc::Ctx& c) { histories(c, c.thorough() ? 5 : 4); }},
		{"lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 4000 : 500); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { lengths(c, 0); }},
	}, "all byte strings of up to two bytes (alone and in context), all of a mark and two bytes (thorough: all of three bytes), all sequences from a smaller alphabet, all Unicode code points (alone, in context, repeated), all pairs of representable and special characters, all sequences of calls; compared with a table made from Unicode's composition rules",
	{"the table of ISO 6937 in tools/iso6937_oracle.py is right", "a zero byte ends the text"});
}
