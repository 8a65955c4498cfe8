/* C06: binary STL files */
#include "stl_model.h"
#include "stl_binary_reader.h"
#include <sstream>

using stl::Gsi;
using stl::Tti;

static void compare(mc::Ctx& c, const vector<stl::Joined>& subs, int mnr, const vector<sub::RawSubtitle>& got)
{
	auto want = stl::merged(stl::decode(subs, mnr));
	uint64_t h = 0;
	for (auto& p: want) {
		h = mc::mix(h, mc::hash(show_piece(p)));
		c.state(h);
	}
	compare_pieces(c, want, stl::merged(got));
}

static void run(mc::Ctx& c, const Gsi& g, const vector<Tti>& t)
{
	string const bytes = stl::file(g, t);
	string in = "DFC=" + g.v.at("DFC") + " MNR=" + g.v.at("MNR");
	for (auto& i: t) {
		in += mc::format("\nSN=%d SGN=%d EBN=%02x CS=%d %s->%s VP=%d JC=%d CF=%d ", i.sn, i.sgn, i.ebn, i.cs, show_time(i.in).c_str(), show_time(i.out).c_str(), i.vp, i.jc, i.cf);
		for (unsigned char x: i.text) in += x > 32 && x < 127 ? string(1, (char) x) : mc::format("<%02x>", x);
	}
	c.input(in);
	vector<sub::RawSubtitle> got;
	try {
		std::istringstream s(bytes);
		sub::STLBinaryReader r(s);
		got = r.subtitles();
	} catch (std::exception& e) {
		c.fail("rejected", string("a valid file is rejected: ") + e.what());
	}
	compare(c, stl::join(t), atoi(g.v.at("MNR").c_str()), got);
}

/** Text fields: every sequence of tokens */
static void text(mc::Ctx& c, int max)
{
	static const vector<string> tokens = {
		"a", "\x8a", "\x80", "\x81", "\x82", "\x83", string("\0", 1), "\x01", "\x06", "\x07", "\xc2" "e", " ", "\x0d", "\x8fz"
	};
	Tti t;
	int n = c.pick(max + 1);
	for (int i = 0; i < n; ++i) {
		int k = c.pick(tokens.size());
		/* only one thing can follow the end, and there must be something after a new row */
		t.text += tokens[k];
		if (k == 13) {
			break;
		}
	}
	if (!c.go()) return;
	Tti next;
	next.text = "b";
	next.in.s = 40;
	next.out.s = 41;
	next.sn = 1;
	run(c, Gsi(), {t, next});
}

/** Each character, in each style */
static void characters(mc::Ctx& c)
{
	int code = 8 + c.pick(0xff - 8 + 1), mark = c.pick(16), where = c.pick(3);
	if ((code >= 0x80 && code <= 0x83) || code == 0x8a || code == 0x8f || iso::is_mark(code)) {
		return;
	}
	if (!c.go()) return;
	Tti t;
	string x;
	if (mark) x += (char) (0xc0 + mark);
	x += (char) code;
	t.text = where == 0 ? x : where == 1 ? "\x80" + x + "b\x81" : "a\x8a" + x + x;
	run(c, Gsi(), {t});
}

/** Every two bytes, whatever they are, and what follows them on this row and on the next */
static void byte_pairs(mc::Ctx& c)
{
	int const a = c.pick(256), b = c.pick(256), where = c.pick(2);
	/* there are no more rows after the end */
	if (!c.go() || a == 0x8f || b == 0x8f) return;
	string const x = string(1, (char) a) + string(1, (char) b);
	Tti t;
	t.text = where ? "\x80\x82u" + x + "v\x8aw" : "p" + x + "q\x8a\x82r" + x + "s";
	Tti next;
	next.text = "b";
	next.in.s = 40;
	next.out.s = 41;
	next.sn = 1;
	run(c, Gsi(), {t, next});
}

/** Sequences of blocks */
static void blocks(mc::Ctx& c, int max)
{
	int n = c.pick(max + 1);
	vector<Tti> t;
	int sn = 0;
	for (int i = 0; i < n; ++i) {
		Tti b;
		b.sn = sn;
		b.in.s = 2 * i;
		b.out.s = 2 * i + 1;
		b.out.f = 3;
		b.vp = 3 + i * 2;
		string const id = mc::format("%d", i);
		int kind = c.pick(11);
		switch (kind) {
		case 0: b.text = "p" + id; t.push_back(b); break;
		case 1: b.text = "\x80\x82\x01i" + id; t.push_back(b); break;           // styles left on
		case 2: b.text = "j" + id + "\x8a\x8a" "k" + id; b.vp = 22; t.push_back(b); break;
		case 3: b.cf = 1; b.text = "comment"; t.push_back(b); break;
		case 4: b.ebn = 0xfe; b.text = "user data"; t.push_back(b); break;
		case 5:                                                           // two extension blocks; only the first's settings count
		case 6:
		case 7:
			b.ebn = 0;
			b.text = kind == 5 ? string(110, 'x') + "\x80y" : kind == 6 ? string("short\x82") : string(111, 'w') + "\xc2";
			t.push_back(b);
			if (kind == 6) {
				Tti u = b;
				u.ebn = 0xfe;
				u.text = "user";
				t.push_back(u);
				b.ebn = 1;
				b.text = string(112, 'v');
				b.vp = 1;
				t.push_back(b);
			}
			b.ebn = 0xff;
			b.text = "e\x8a" "f" + id;
			b.vp = 9;
			b.jc = 1;
			t.push_back(b);
			break;
		case 8: b.jc = 1; b.text = "left" + id; t.push_back(b); break;
		case 9: b.jc = 3; b.sgn = 1; b.cs = 1; b.text = ""; t.push_back(b); break;
		case 10: b.jc = 0; b.text = string(112, 'f'); b.in = {23, 59, 59, 24, 25}; b.out = {0, 0, 0, 0, 25}; t.push_back(b); break;
		}
		++sn;
		if (sn == 2) sn = 0x1234;
	}
	/* the numbers of subtitles may all be the same: some writers do that */
	bool const same = c.pick(2);
	if (same) for (auto& i: t) i.sn = 0;
	if (!c.go()) return;
	run(c, Gsi(), t);
}

/** Every byte of the blocks' headers */
static void fields(mc::Ctx& c)
{
	static vector<vector<int>> const chains = {{0xff}, {0xff, 0xff}, {0, 0xff}, {0, 1, 0xff, 0xff}, {0xfe, 0xff}, {0, 0xfe, 0xff}, {0xef, 0xff}, {0xff, 0, 0xff}};
	auto const& chain = c.of(chains);
	vector<Tti> t;
	int sn = 0;
	for (size_t i = 0; i < chain.size(); ++i) {
		Tti b;
		b.ebn = chain[i];
		b.sn = sn;
		/* what is left on and the row reached show which block belongs to which subtitle */
		b.text = mc::format("t%zu", i) + (i % 2 ? "\x8a" "r\x82" : "\x80" "i\x8a" "q");
		b.in.s = sn;
		b.out.s = sn + 1;
		static vector<int> const byte = {0, 1, 2, 15, 16, 127, 128, 253, 254, 255};
		int k = c.dev(byte.size() + 1);
		if (k) b.sgn = byte[k - 1];
		k = c.dev(4);
		if (k) b.cs = k;
		k = c.dev(256);
		if (k) b.vp = k;
		k = c.dev(4);
		if (k) b.jc = k == 2 ? 0 : k;
		k = c.dev(2);
		if (k) b.cf = 1;
		/* an extension has the times of what it extends */
		bool const extension = !t.empty() && t.back().sn == sn && b.ebn != 0xfe;
		int const moved = extension ? 0 : c.dev(9);
		auto& m = moved < 5 ? b.in : b.out;
		switch (moved ? (moved - 1) % 4 : -1) {
		case 0: m.h = 23; break;
		case 1: m.m = 59; break;
		case 2: m.s = 59; break;
		case 3: m.f = 24; break;
		}
		if (extension) {
			for (auto& j: t) {
				if (j.sn == sn && j.ebn != 0xfe) {
					b.in = j.in;
					b.out = j.out;
					break;
				}
			}
		}
		t.push_back(b);
		if (chain[i] == 0xff) ++sn;
	}
	/* all the subtitles' numbers moved up */
	int const base = c.of(vector<int>{0, 1, 253, 254, 255, 256, 0x00fe, 0x0fff, 0xfe00, 0xfefe, 0xfffc});
	for (auto& i: t) i.sn += base;
	if (!c.go()) return;
	run(c, Gsi(), t);
}

/** Long chains of extension blocks */
static void chains(mc::Ctx& c)
{
	int n = 2 + c.pick(c.thorough() ? 250 : 60), fill = c.pick(5), after = c.pick(2);
	if (!c.go()) return;
	vector<Tti> t;
	for (int i = 0; i < n; ++i) {
		Tti b;
		b.sn = 5;
		b.ebn = i == n - 1 ? 0xff : i;
		int len = fill == 0 ? 112 : fill == 1 ? 1 + i % 112 : 111;
		for (int j = 0; j < len; ++j) b.text += (char) ('a' + (i + j) % 26);
		/* spaces, and nothing else, at either end of the block */
		if (fill == 3) b.text = i % 5 == 2 ? "  " : " " + string(i % 4, ' ') + b.text.substr(0, 100) + string(1 + i % 3, ' ');
		if (fill == 4) b.text = string(112, i % 2 ? ' ' : 'x').substr(0, i % 3 == 0 ? 112 : 1 + i % 112);
		if (fill == 2) b.text += (char) (i % 3 == 0 ? 0x80 : i % 3 == 1 ? 0x81 : 0x8a);
		t.push_back(b);
	}
	if (after) {
		Tti b;
		b.sn = 6;
		b.text = "after";
		t.push_back(b);
	}
	run(c, Gsi(), t);
}

/** Subtitles whose last block is missing: what follows is not part of them if its number is another */
static void unfinished(mc::Ctx& c)
{
	static vector<int> const numbers = {0, 1, 255, 256, 257, 0x100, 0x1ff, 0xff00, 0xff01, 0xfffe};
	int const a = c.of(numbers), b = c.of(numbers), n = 1 + c.pick(3), m = 1 + c.pick(3), same_time = c.pick(2), last = c.pick(2);
	if (!c.go()) return;
	if (a == b) return;
	vector<Tti> t;
	for (int i = 0; i < n + m; ++i) {
		Tti x;
		x.sn = i < n ? a : b;
		x.in.s = same_time || i < n ? 1 : 3;
		x.out.s = same_time || i < n ? 2 : 4;
		x.text = mc::format("t%d", i) + (i % 2 ? "\x8a" "r\x82" : "\x80" "i\x8a" "q");
		x.ebn = i < n ? i : i < n + m - 1 ? i - n : last ? 0xff : m - 1;
		t.push_back(x);
	}
	run(c, Gsi(), t);
}

/** Many blocks, and many rows in a block's chain */
static void sizes(mc::Ctx& c)
{
	int const n = c.of(mc::big_sizes()), kind = c.pick(3);
	if (!c.go()) return;
	vector<Tti> t;
	for (int i = 0; i < n; ++i) {
		Tti b;
		b.sn = kind == 1 ? 9 : i & 0xffff;
		b.in = {(i / 3600) % 24, (i / 60) % 60, i % 60, i % 25, 25};
		b.out = {(i / 3600) % 24, (i / 60) % 60, i % 60, 24, 25};
		b.text = kind == 2 && i % 3 == 0 ? "\x80wi\x8a\x82th\x8a\x8axyz" : mc::format("%d", i);
		b.cf = kind == 2 && i % 7 == 0;
		t.push_back(b);
	}
	run(c, Gsi(), t);
}

/** Rows: every vertical position with every row total */
static void rows(mc::Ctx& c)
{
	int vp = c.pick(256), mnr = 1 + c.pick(99), n = c.pick(3);
	if (!c.go()) return;
	Gsi g;
	g.v["MNR"] = mc::format("%02d", mnr);
	vector<Tti> t;
	Tti a;
	a.text = "one";
	a.vp = 3;
	t.push_back(a);
	a.vp = vp;
	a.text = n == 0 ? "one" : n == 1 ? "one\x8atwo" : "one\x8a\x8athree";
	t.push_back(a);
	run(c, g, t);
}

/** Time codes at each rate */
static void times(mc::Ctx& c, bool all)
{
	static const vector<string> dfc = {"STL25.01", "STL24.01", "STL30.01", "STL23.01"};
	string const d = c.of(dfc);
	int const r = stl::rate(d);
	int h, m;
	if (all) {
		h = c.pick(24);
		m = c.pick(60);
	} else {
		static const vector<int> hs = {0, 1, 9, 10, 23}, ms = {0, 1, 29, 59};
		h = c.of(hs);
		m = c.of(ms);
	}
	if (!c.go()) return;
	Gsi g;
	g.v["DFC"] = d;
	vector<Tti> t;
	for (int s = 0; s < 60; ++s) {
		for (int f = 0; f < r; ++f) {
			Tti i;
			i.in = {h, m, s, f, r};
			i.out = {(h + f) % 24, (m + 7 * f + s) % 60, (s + 11 * f + 1) % 60, (f * 5 + s + 1) % r, r};
			i.text = "t";
			t.push_back(i);
		}
	}
	c.input(mc::format("DFC %s, in times %d:%d:*:*", d.c_str(), h, m));
	std::istringstream in(stl::file(g, t));
	sub::STLBinaryReader x(in);
	auto got = x.subtitles();
	c.check(got.size() == t.size(), "number-of-pieces", mc::format("%zu instead of %zu", got.size(), t.size()));
	for (size_t i = 0; i < t.size(); ++i) {
		if (!time_is(got[i].from, t[i].in) || !time_is(got[i].to, t[i].out)) {
			c.fail("time", "block with " + show_time(t[i].in) + " to " + show_time(t[i].out) + " read as " + show_time(got[i].from) + " to " + show_time(got[i].to));
		}
	}
	c.step(t.size());
	c.compared(t.size());
	c.state(mc::mix(mc::hash(d), h * 60 + m));
}

struct Value { string v; string text; };     // in the file; what metadata() says

static vector<Value> values(const stl::Field& f)
{
	vector<Value> o;
	string const n = f.name;
	auto number = [&](int from, int to) {
		for (int i = from; i <= to; ++i) o.push_back({mc::format("%0*d", f.size, i), mc::format("%d", i)});
	};
	if (n == "CPN") { for (string s: {"437", "850", "860", "863", "865"}) o.push_back({s, s}); }
	else if (n == "DFC") { o = {{"STL25.01", "25"}, {"STL24.01", "24"}, {"STL30.01", "30"}, {"STL23.01", "23.976"}}; }
	else if (n == "DSC") { o = {{" ", "Undefined"}, {"0", "Open subtitling"}, {"1", "Level 1 teletext"}, {"2", "Level 2 teletext"}}; }
	else if (n == "CCT") { o = {{"00", "Latin"}, {"01", "Latin/Cyrillic"}, {"02", "Latin/Arabic"}, {"03", "Latin/Greek"}, {"04", "Latin/Hebrew"}}; }
	else if (n == "LC") { o = {{"00", "Unknown"}, {"09", "English"}, {"0F", "French"}, {"2B", "Wallon"}, {"45", "Zulu"}, {"7F", "Amharic"}}; }
	else if (n == "TCS") { o = {{"0", "Not intended for use"}, {"1", "Intended for use"}}; }
	else if (n == "MNR") { for (int i = 1; i < 100; ++i) o.push_back({mc::format("%02d", i), mc::format("%d", i == 99 ? 12 : i)}); }
	else if (n == "MNC") number(0, 99);
	else if (n == "TND" || n == "DSN") number(0, 9);
	else if (n == "TNG") number(0, 999);
	else if (n == "TNS") { for (int i: {0, 1, 7, 8, 9, 10, 99, 100, 777, 1000, 9999, 10000, 65535, 65536, 99999}) number(i, i); }
	else if (n == "TNB") {}
	else {
		for (int k = 0; k < 5; ++k) {
			string s;
			for (int i = 0; i < f.size; ++i) {
				s += k == 0 ? ' ' : k == 1 ? (char) ('A' + i % 26) : k == 2 ? (char) (128 + i * 3) : k == 3 ? (char) (i == 0 || i == f.size - 1 ? 'x' : ' ') : '9';
			}
			o.push_back({s, s});
		}
	}
	return o;
}

static const std::map<string, string> titles = {
	{"CPN", "Code page number"}, {"DFC", "Frame rate"}, {"DSC", "Display standard"}, {"CCT", "Language group"}, {"LC", "Language"}, {"OPT", "Original programme title"},
	{"OET", "Original episode title"}, {"TPT", "Translated programme title"}, {"TET", "Translated episode title"}, {"TN", "Translator name"}, {"TCD", "Translator contact details"},
	{"SLR", "Subtitle list reference code"}, {"CD", "Creation date"}, {"RD", "Revision date"}, {"RN", "Revision number"}, {"TNB", "TTI blocks"}, {"TNS", "Number of subtitles"},
	{"TNG", "Subtitle groups"}, {"MNC", "Maximum characters"}, {"MNR", "Maximum rows"}, {"TCS", "Timecode status"}, {"TCP", "Start of programme"}, {"TCF", "First in cue"},
	{"TND", "Disks"}, {"DSN", "Disk sequence number"}, {"CO", "Country of origin"}, {"PUB", "Publisher"}, {"EN", "Editor name"}, {"ECD", "Editor contact details"}
};

static string by_member(const sub::STLBinaryReader& r, const string& n)
{
	auto i = [](int v) { return mc::format("%d", v); };
	if (n == "CPN") return i(r.code_page_number);
	if (n == "DFC") return mc::format("%g", (double) r.frame_rate);
	if (n == "OPT") return r.original_programme_title;
	if (n == "OET") return r.original_episode_title;
	if (n == "TPT") return r.translated_programme_title;
	if (n == "TET") return r.translated_episode_title;
	if (n == "TN") return r.translator_name;
	if (n == "TCD") return r.translator_contact_details;
	if (n == "SLR") return r.subtitle_list_reference_code;
	if (n == "CD") return r.creation_date;
	if (n == "RD") return r.revision_date;
	if (n == "RN") return r.revision_number;
	if (n == "TNB") return i(r.tti_blocks);
	if (n == "TNS") return i(r.number_of_subtitles);
	if (n == "TNG") return i(r.subtitle_groups);
	if (n == "MNC") return i(r.maximum_characters);
	if (n == "MNR") return i(r.maximum_rows);
	if (n == "TCP") return r.start_of_programme;
	if (n == "TCF") return r.first_in_cue;
	if (n == "TND") return i(r.disks);
	if (n == "DSN") return i(r.disk_sequence_number);
	if (n == "CO") return r.country_of_origin;
	if (n == "PUB") return r.publisher;
	if (n == "EN") return r.editor_name;
	if (n == "ECD") return r.editor_contact_details;
	return "-";
}

/** Header: every value of each field, and of every two fields */
static void header(mc::Ctx& c)
{
	Gsi g;
	std::map<string, string> want;
	for (auto& f: stl::fields) {
		auto v = values(f);
		if (v.empty()) {
			continue;
		}
		/* default first */
		int k = c.dev(v.size() + 1);
		if (k) {
			g.v[f.name] = v[k - 1].v;
			want[f.name] = v[k - 1].text;
		}
	}
	int blocks = c.pick(2);
	if (!c.go()) return;
	static const std::map<string, string> defaults = {
		{"CPN", "850"}, {"DFC", "25"}, {"DSC", "Open subtitling"}, {"CCT", "Latin"}, {"LC", "English"}, {"RN", "07"}, {"TNS", "0"}, {"TNG", "1"}, {"MNC", "40"}, {"MNR", "23"},
		{"TCS", "Intended for use"}, {"TND", "1"}, {"DSN", "1"}
	};
	for (auto& f: stl::fields) {
		if (want.find(f.name) == want.end()) {
			auto d = defaults.find(f.name);
			want[f.name] = d == defaults.end() ? g.padded(f.name) : d->second;
		}
	}
	want["TNB"] = mc::format("%d", blocks);
	string const bytes = stl::file(g, vector<Tti>(blocks));
	c.input(bytes.substr(0, 1024));
	std::istringstream s(bytes);
	std::map<string, string> m;
	try {
		sub::STLBinaryReader r(s);
		m = r.metadata();
		for (auto& f: stl::fields) {
			string x = by_member(r, f.name);
			if (x != "-" && x != want[f.name]) {
				c.fail(string("field-") + f.name, "reported as \"" + x + "\" instead of \"" + want[f.name] + "\"");
			}
		}
	} catch (mc::Failure&) {
		throw;
	} catch (std::exception& e) {
		c.fail("rejected", string("a valid file is rejected: ") + e.what());
	}
	for (auto& f: stl::fields) {
		string const x = m[titles.at(f.name)];
		if (x != want[f.name]) {
			c.fail(string("metadata-") + f.name, "reported as \"" + x + "\" instead of \"" + want[f.name] + "\"");
		}
		c.state(mc::mix(mc::hash(f.name), mc::hash(x)));
	}
	c.check(m.size() == titles.size(), "metadata-number", mc::format("%zu entries", m.size()));
	c.outcome(mc::hash(bytes));
	c.step(titles.size());
	c.compared();
}

/** Files which are too short, at every length */
static void truncated(mc::Ctx& c)
{
	int n = c.pick(4);
	vector<Tti> t(n);
	for (int i = 0; i < n; ++i) {
		t[i].text = mc::format("sub%d", i);
		t[i].cf = i == 1;
	}
	string const whole = stl::file(Gsi(), t);
	int const length = c.pick(whole.size() + 130);
	if (!c.go()) return;
	c.input(mc::format("%d blocks, cut to %d bytes", n, length));
	string s = whole.substr(0, length);
	if (length > (int) whole.size()) s += string(length - whole.size(), 'x');
	std::istringstream in(s);
	c.state(mc::mix(n, length));
	c.step();
	c.compared();
	try {
		sub::STLBinaryReader r(in);
		c.check(length >= (int) whole.size(), "too-short", "a file which is too short is accepted");
		c.outcome(1);
	} catch (sub::STLError& e) {
		c.check(length < (int) whole.size(), "rejected", e.what());
		c.outcome(0);
	} catch (mc::Failure&) {
		throw;
	} catch (std::exception& e) {
		c.fail("wrong-exception", e.what());
	}
}

/** Unknown codes */
static void unknown(mc::Ctx& c)
{
	struct X { const char* field; vector<string> good; };
	static vector<X> const x = {
		{"DFC", {"STL25.01", "STL24.01", "STL30.01", "STL23.01"}}, {"DSC", {" ", "0", "1", "2"}}, {"CCT", {"00", "01", "02", "03", "04", "U8"}}, {"TCS", {"0", "1"}}, {"LC", {}}
	};
	int k = c.pick(x.size() + 1);
	Gsi g;
	vector<Tti> t(1);
	bool good = true;
	string what;
	if (k < (int) x.size()) {
		auto& f = stl::field(x[k].field);
		string v = g.v[x[k].field];
		int at = c.pick(f.size);
		v[at] = (char) c.pick(256);
		g.v[x[k].field] = v;
		what = string(f.name) + "=" + v;
		good = false;
		for (auto& i: x[k].good) good = good || i == v;
		if (v.size() == 2 && string(f.name) == "LC") {
			static string const hex = "0123456789ABCDEF";
			size_t a = hex.find(v[0]), b = hex.find(v[1]);
			if (a != string::npos && b != string::npos) {
				int n = a * 16 + b;
				good = n <= 0x2b || (n >= 0x45 && n <= 0x7f);
			}
		}
	} else {
		t[0].cf = c.pick(256);
		good = t[0].cf < 2;
		what = mc::format("CF=%d", t[0].cf);
	}
	if (!c.go()) return;
	c.input(what);
	std::istringstream in(stl::file(g, t));
	c.state(mc::hash(what));
	c.step();
	c.compared();
	try {
		sub::STLBinaryReader r(in);
		c.check(good, "unknown-code", "a file with an unknown code is accepted");
		c.outcome(1);
	} catch (sub::STLError& e) {
		c.check(!good, "rejected", e.what());
		c.outcome(0);
	} catch (mc::Failure&) {
		throw;
	} catch (std::exception& e) {
		c.fail("wrong-exception", e.what());
	}
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C06";
	return mc::main(argc, argv, o, {
		{"text", 0, 0, [](mc::Ctx& c) { text(c, c.thorough() ? 6 : 5); }},
		{"characters", 0, 0, characters},
		{"byte-pairs", 0, 0, byte_pairs},
		{"blocks", 0, 0, [](mc::Ctx& c) { blocks(c, c.thorough() ? 5 : 4); }},
		{"fields", 1, 2, fields},
		{"extension-chains", 0, 0, chains},
		{"unfinished", 0, 0, unfinished},
		{"sizes", 0, 0, sizes},
		{"rows", 0, 0, rows},
		{"times", 0, -1, [](mc::Ctx& c) { times(c, false); }},
		{"all-times", -1, 0, [](mc::Ctx& c) { times(c, true); }},
		{"header", 1, 2, header},
		{"truncated", 0, 0, truncated},
		{"unknown-codes", 0, 0, unknown},
	}, "all text fields of up to 5 (thorough 6) tokens; every character code with every mark; every two bytes in two places; all sequences of up to 4 (thorough 5) subtitles and other blocks of 11 kinds; extension chains up to 61 (251) blocks with texts ending in spaces, codes or padding, and chains with no end; one (two) unusual values in the headers of the blocks of 8 chains, at 11 subtitle numbers; every vertical position with every row total; time codes (thorough: every one) at each rate; every value of each header field (thorough: of each pair); every truncation; every one-byte change of a code",
	{"the decoder in lib/stl_model.h follows EBU 3264-E", "character code table 00 (ISO 6937)"});
}
