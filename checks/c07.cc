/* C07: the bytes of written binary STL files */
#include "stl_writer_model.h"

using namespace wr;

static void check(mc::Ctx& c, const vector<Sub>& subs, const Meta& m)
{
	c.input(show(subs) + mc::format("fps=%g", m.fps));
	vector<sub::Subtitle> const in = make(subs);
	string f;
	unlink(path().c_str());
	try {
		write(in, m, path());
	} catch (std::exception& e) {
		c.fail("refused", string("writing failed: ") + e.what());
	}
	f = slurp(path());
	Rate const* rate = nullptr;
	for (auto& r: rates) if (r.fps == m.fps) rate = &r;

	vector<Written> const got = parse(c, f);

	/* Header */
	vector<const Sub*> want;
	size_t longest = 0;
	bool simple = true;
	for (auto& s: subs) {
		if (s.lines.empty()) continue;
		want.push_back(&s);
		for (auto& l: s.lines) {
			longest = std::max(longest, l.text().size());
			for (wchar_t x: l.text()) simple = simple && iso::representable((int) x);
		}
	}
	std::map<string, string> const h = {
		{"CPN", "850"}, {"DFC", rate->dfc}, {"DSC", "0"}, {"CCT", "00"}, {"LC", m.code}, {"OPT", m.opt}, {"OET", m.oet}, {"TPT", m.tpt}, {"TET", m.tet}, {"TN", m.tn}, {"TCD", m.tcd},
		{"CD", m.cd}, {"RD", m.rd}, {"RN", mc::format("%02d", m.rn)}, {"TNB", mc::format("%05zu", (f.size() - 1024) / 128)}, {"TNS", mc::format("%05zu", want.size())}, {"TNG", "001"},
		{"MNC", mc::format("%02zu", std::min<size_t>(longest, 99))}, {"MNR", "23"}, {"TCS", "1"}, {"TCP", "00000000"}, {"TCF", "00000000"}, {"TND", "1"}, {"DSN", "1"}, {"CO", m.co}, {"PUB", m.pub},
		{"EN", m.en}, {"ECD", m.ecd}
	};
	for (auto& i: stl::fields) {
		auto w = h.find(i.name);
		if (w == h.end() || (string(i.name) == "MNC" && !simple)) continue;
		string v = w->second;
		v.resize(i.size, ' ');
		string const g = f.substr(i.offset, i.size);
		if (g != v) c.fail(string("header-") + i.name, "is \"" + mc::show(g) + "\" instead of \"" + mc::show(v) + "\"");
	}

	/* Subtitles */
	if (got.size() != want.size()) c.fail("number-of-subtitles", mc::format("%zu instead of %zu", got.size(), want.size()));
	uint64_t o = mc::hash(f.substr(0, 373));
	for (size_t i = 0; i < got.size(); ++i) {
		auto& g = got[i];
		auto& w = *want[i];
		string const which = mc::format("subtitle %zu: ", i);
		for (int e = 0; e < 2; ++e) {
			int const b = 5 + 4 * e;
			int const hh = g.byte(b), mm = g.byte(b + 1), ss = g.byte(b + 2), ff = g.byte(b + 3);
			auto const n = nearest(e ? w.to : w.from, rate->frames);
			long long const t = ((hh * 60LL + mm) * 60 + ss) * rate->frames + ff;
			if (hh > 23 || mm > 59 || ss > 59 || ff >= rate->frames) c.fail("invalid-timecode", which + mc::format("time code %d:%d:%d:%d at %d fps", hh, mm, ss, ff, rate->frames));
			if (t < n.first || t > n.second) {
				c.fail("timecode", which + mc::format("time code %d:%d:%d:%d (%lld frames) instead of %lld frames at %d fps", hh, mm, ss, ff, t, n.second, rate->frames));
			}
		}
		double top = 1000;
		for (auto& l: w.lines) top = std::min(top, l.exact());
		if (fabs(g.byte(13) - top) > 0.5 + 1e-4) c.fail("row", which + mc::format("is at row %d instead of %.4f", g.byte(13), top));
		int const jc = w.lines[0].href == sub::LEFT_OF_SCREEN ? 1 : w.lines[0].href == sub::RIGHT_OF_SCREEN ? 3 : 2;
		if (g.byte(14) != jc) c.fail("justification", which + mc::format("has justification %d instead of %d", g.byte(14), jc));
		if (g.byte(15) != 0) c.fail("comment", which + "is marked as a comment");
		if (g.byte(4) != 0) c.fail("cumulative", which + "is marked as part of a cumulative set");
		auto a = decode(c, g.text());
		auto e = rows(w);
		if (clear(w) ? a != e : false) c.fail("text", which + "has text\n" + show(a) + "instead of\n" + show(e));
		if (!clear(w)) {
			/* the number of row advances is in doubt */
			vector<Row> x, y;
			for (auto& r: a) if (!r.empty()) x.push_back(r);
			for (auto& r: e) if (!r.empty()) y.push_back(r);
			if (x != y) c.fail("text", which + "has text\n" + show(a) + "instead of\n" + show(e));
		}
		o = mc::mix(o, mc::hash(g.blocks[0]));
		c.state(mc::mix(mc::hash(g.text()), mc::hash(g.blocks[0].substr(0, 16))));
		c.step(g.blocks.size());
	}
	c.outcome(o);
	c.compared();
}

static void run(mc::Ctx& c, vector<Sub> s)
{
	if (!c.go()) return;
	check(c, s, Meta());
}

static void times(mc::Ctx& c)
{
	Meta m;
	m.fps = rates[c.pick(8)].fps;
	Sub s = one(L"x");
	bool const end = c.pick(2);
	(end ? s.to : s.from) = gen_time(c);
	if (!c.go()) return;
	check(c, {s, s}, m);
}

/** Values of the metadata: each, and each two */
static void metadata(mc::Ctx& c)
{
	Meta m;
	static const vector<string> v = {"", "x", string(31, 'y'), string(32, 'z'), "  sp ", "\xc3\xa9 \xff\x01", string(33, 'L'), string(200, 'M')};
	bool bad = false;
	for (string* s: {&m.opt, &m.oet, &m.tpt, &m.tet, &m.tn, &m.tcd, &m.pub, &m.en, &m.ecd}) {
		int k = c.dev(v.size() + 1);
		if (k) *s = v[k - 1];
		bad = bad || s->size() > 32;
	}
	for (string* s: {&m.cd, &m.rd}) {
		static const vector<string> w = {"000000", "991231", "ABCDEF", "", "12345", "1234567"};
		int k = c.dev(w.size() + 1);
		if (k) *s = w[k - 1];
		bad = bad || s->size() != 6;
	}
	{
		static const vector<string> w = {"   ", "FRA", "", "GB", "GBRX"};
		int k = c.dev(w.size() + 1);
		if (k) m.co = w[k - 1];
		bad = bad || m.co.size() != 3;
	}
	int r = c.dev(104);
	if (r) m.rn = r < 102 ? r - 1 : r == 102 ? 255 : 100000;
	bad = bad || m.rn > 99;
	int k = c.dev(8);
	m.fps = rates[k].fps;
	int n = c.pick(2);
	if (!c.go()) return;
	vector<Sub> s(n, one(L"text"));
	if (!bad) {
		check(c, s, m);
		return;
	}
	c.input("bad metadata");
	unlink(path().c_str());
	c.compared();
	c.step();
	try {
		write(make(s), m, path());
	} catch (std::exception&) {
		c.check(access(path().c_str(), F_OK) != 0, "bad-metadata-written", "a file is written though a value does not fit its field");
		c.outcome(1);
		return;
	}
	c.fail("bad-metadata", "a value which does not fit its field is accepted");
}

static void languages(mc::Ctx& c)
{
	int k = c.pick(128);
	if (!c.go()) return;
	sub::STLBinaryTables t;
	Meta m;
	m.code = mc::format("%02X", k);
	try {
		m.language = t.language_file_to_enum(m.code);
	} catch (std::exception&) {
		return;
	}
	check(c, {}, m);
}

/** Numbers of subtitles and blocks */
static void counts(mc::Ctx& c)
{
	static const vector<int> n = {0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 257, 999, 1000, 9999, 10000, 65536, 99999, 100000};
	int subs = c.of(n), len = c.pick(3);
	if ((len == 2 && subs > 10000) || (len == 1 && subs > 1000)) return;
	if (!c.go()) return;
	int const blocks = len == 2 ? 3 : 1;
	Sub s = one(len == 0 ? L"a" : len == 1 ? letters(99) : letters(250));
	s.from = frames(0, 0, 1, 0, 25);
	c.input(mc::format("%d subtitles of %d blocks", subs, blocks));
	unlink(path().c_str());
	c.compared();
	c.step();
	c.state(subs * 3 + len);
	try {
		write(vector<sub::Subtitle>(subs, make({s})[0]), Meta(), path());
	} catch (std::exception& e) {
		c.check(subs * blocks > 99999, "refused", e.what());
		c.check(access(path().c_str(), F_OK) != 0, "refused-but-written", "a file is left behind");
		return;
	}
	c.check(subs * blocks <= 99999, "too-many", "more blocks than the header can hold");
	string const f = slurp(path());
	unlink(path().c_str());
	auto got = parse(c, f);
	c.check((int) got.size() == subs && f.size() == 1024 + 128 * (size_t) subs * blocks, "number-of-subtitles", mc::format("%zu subtitles, %zu bytes", got.size(), f.size()));
	string const tnb = f.substr(238, 5), tns = f.substr(243, 5);
	c.check(tnb == mc::format("%05d", subs * blocks), "header-TNB", tnb);
	c.check(tns == mc::format("%05d", subs), "header-TNS", tns);
	c.outcome(mc::hash(f));
	for (auto& g: got) c.check(g.blocks == got[0].blocks, "subtitles-differ", "identical subtitles are written differently");
}

/** Very long subtitles */
static void very_long(mc::Ctx& c)
{
	static const vector<int> n = {112 * 100, 112 * 239 - 1, 112 * 239, 112 * 240 - 1, 112 * 240, 112 * 241 - 1, 112 * 241, 112 * 253, 112 * 254, 112 * 255, 112 * 256, 112 * 257, 112 * 600};
	int k = c.of(n), around = c.pick(2);
	if (!c.go()) return;
	vector<Sub> s = {one(letters(k))};
	if (around) {
		s.insert(s.begin(), one(L"before"));
		s.push_back(one(L"after"));
	}
	if (k + 1 <= 112 * 241) {
		check(c, s, Meta());
		return;
	}
	c.input(mc::format("a subtitle of %d characters", k));
	unlink(path().c_str());
	c.compared();
	c.step();
	try {
		write(make(s), Meta(), path());
	} catch (std::exception&) {
		c.check(access(path().c_str(), F_OK) != 0, "refused-but-written", "a file is left behind");
		return;
	}
	c.check(k + 1 <= 112 * 241 + 1, "too-long", "a subtitle with more extension blocks than there are numbers for is written");
}

/** Characters, alone and in the middle */
static void characters(mc::Ctx& c)
{
	int ch = 32 + c.pick(c.thorough() ? 0xffe0 : 0x2200), where = c.pick(2);
	if ((ch >= 0xd800 && ch < 0xe000) || ch == 0x7f) return;
	if (!c.go()) return;
	std::wstring t(1, (wchar_t) ch);
	if (where) t = L"x" + t + L"y";
	Sub s;
	s.lines = {at_row(5, {block(t), block(t, true)})};
	check(c, {s}, Meta());
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C07";
	return mc::main(argc, argv, o, {
		{"lists", 0, 0, [](mc::Ctx& c) { run(c, gen_list(c, c.thorough() ? 6 : 5)); }},
		{"text", 0, 0, [](mc::Ctx& c) { run(c, gen_text(c, c.thorough() ? 6 : 5)); }},
		{"lengths", 0, 0, [](mc::Ctx& c) { run(c, gen_lengths(c, c.thorough() ? 4000 : 700)); }},
		{"row", 0, 0, [](mc::Ctx& c) { run(c, gen_rows(c, false)); }},
		{"two-rows", 0, 0, [](mc::Ctx& c) { run(c, gen_rows(c, true)); }},
		{"times", 0, 0, times},
		{"metadata", 1, 2, metadata},
		{"languages", 0, 0, languages},
		{"counts", 0, 0, counts},
		{"very-long", 0, 0, very_long},
		{"characters", 0, 0, characters},
	}, "all lists of up to 5 (thorough 6) subtitles of 10 kinds; all sequences of up to 5 (6) blocks and line breaks of 10 kinds; every length up to 700 (4000) in 6 styles; every (pair of) vertical position(s) from a list; every millisecond and frame at each rate; values of each (two) metadata fields; numbers of subtitles around each limit; the characters up to U+2200 (U+FFFF)",
	{"the parser in lib/stl_writer_model.h follows EBU 3264-E"});
}
