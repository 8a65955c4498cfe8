/* C08: writing binary STL and reading it back */
#include "stl_writer_model.h"
#include "collect.h"
#include "stl_binary_reader.h"
#include <boost/locale.hpp>

using namespace wr;

typedef vector<sub::Subtitle> Subs;

static string trimmed(string s)
{
	while (!s.empty() && s.back() == ' ') s.pop_back();
	return s;
}

struct Back {
	Subs subs;
	Meta meta;
	string bytes;
};

static Back back(mc::Ctx& c, const Subs& s, const Meta& m, const char* which)
{
	Back b;
	try {
		write(s, m, path());
	} catch (std::exception& e) {
		c.fail("refused", string(which) + " writing failed: " + e.what());
	}
	b.bytes = slurp(path());
	try {
		std::istringstream in(b.bytes);
		sub::STLBinaryReader r(in);
		b.subs = sub::collect<Subs>(r.subtitles());
		Meta& n = b.meta;
		n.fps = r.frame_rate;
		n.language = r.language;
		n.opt = r.original_programme_title;
		n.oet = r.original_episode_title;
		n.tpt = r.translated_programme_title;
		n.tet = r.translated_episode_title;
		n.tn = r.translator_name;
		n.tcd = r.translator_contact_details;
		n.cd = r.creation_date;
		n.rd = r.revision_date;
		n.rn = atoi(r.revision_number.c_str());
		n.co = r.country_of_origin;
		n.pub = r.publisher;
		n.en = r.editor_name;
		n.ecd = r.editor_contact_details;
	} catch (std::exception& e) {
		c.fail("unreadable", string(which) + " file cannot be read back: " + e.what());
	}
	return b;
}

static string show_sub(const sub::Subtitle& s)
{
	string o = show_time(s.from) + " -> " + show_time(s.to) + "\n";
	for (auto& l: s.lines) {
		o += mc::format("  row %d of %d href %d:", l.vertical_position.line.get_value_or(-1), l.vertical_position.lines.get_value_or(-1), l.horizontal_position.reference);
		for (auto& b: l.blocks) o += string(" [") + (b.italic ? "I" : "") + (b.underline ? "U" : "") + "|" + b.text + "]";
		o += "\n";
	}
	return o;
}

/** Each character, with its style and row */
static string content(const Subs& subs)
{
	string o;
	for (auto& s: subs) {
		size_t const before = o.size();
		bool any = false;
		o += show_time(s.from) + " -> " + show_time(s.to) + "\n";
		for (auto& l: s.lines) {
			string t;
			for (auto& b: l.blocks) {
				for (char x: b.text) t += string(1, (char) ('0' + b.italic * 2 + b.underline)) + x;
			}
			any = any || !t.empty();
			if (!t.empty()) o += mc::format("  %d, %d: ", l.vertical_position.line.get_value_or(-1), l.horizontal_position.reference) + t + "\n";
		}
		if (!any) o.resize(before);
	}
	return o;
}

/** @param same true if a second file should be identical to the first */
static void check(mc::Ctx& c, const vector<Sub>& subs, const Meta& m, bool same = true)
{
	c.input(show(subs) + mc::format("fps=%g", m.fps));
	Rate const* rate = nullptr;
	for (auto& r: rates) if (r.fps == m.fps) rate = &r;
	auto b = back(c, make(subs), m, "the first");
	Subs const whole = b.subs;
	/* subtitles with no text at all may or may not be there */
	for (size_t i = 0; i < b.subs.size(); ) {
		bool any = false;
		for (auto& l: b.subs[i].lines) for (auto& k: l.blocks) any = any || !k.text.empty();
		if (any) ++i; else b.subs.erase(b.subs.begin() + i);
	}

	/* Metadata */
	auto meta = [&](const char* what, const string& want, const string& got) {
		if (trimmed(want) != trimmed(got)) c.fail(string("metadata-") + what, "read as \"" + mc::show(got) + "\" instead of \"" + mc::show(want) + "\"");
	};
	meta("original-programme-title", m.opt, b.meta.opt);
	meta("original-episode-title", m.oet, b.meta.oet);
	meta("translated-programme-title", m.tpt, b.meta.tpt);
	meta("translated-episode-title", m.tet, b.meta.tet);
	meta("translator-name", m.tn, b.meta.tn);
	meta("translator-contact-details", m.tcd, b.meta.tcd);
	meta("creation-date", m.cd, b.meta.cd);
	meta("revision-date", m.rd, b.meta.rd);
	meta("country-of-origin", m.co, b.meta.co);
	meta("publisher", m.pub, b.meta.pub);
	meta("editor-name", m.en, b.meta.en);
	meta("editor-contact-details", m.ecd, b.meta.ecd);
	if (m.rn != b.meta.rn) c.fail("metadata-revision-number", mc::format("read as %d instead of %d", b.meta.rn, m.rn));
	if (m.language != b.meta.language) c.fail("metadata-language", mc::format("read as %d instead of %d", b.meta.language, m.language));
	double const want_rate = string(rate->dfc) == "STL23.01" ? 23.976 : rate->frames;
	if (fabs(want_rate - b.meta.fps) > 1e-3) c.fail("metadata-frame-rate", mc::format("read as %g instead of %g", b.meta.fps, want_rate));

	/* Subtitles */
	struct W { const Sub* s; vector<Row> rows; long top; };
	vector<W> want;
	long highest = 0;
	bool certain = true;
	for (auto& s: subs) {
		if (s.lines.empty()) continue;
		auto r = rows(s);
		for (auto& l: s.lines) {
			for (auto& k: l.blocks) same = same && !k.text.empty() && iso::round_trip(k.text).size() == k.text.size();
		}
		double top = 1000;
		for (auto& l: s.lines) top = std::min(top, l.exact());
		bool any = false;
		for (auto& i: r) {
			any = any || !i.empty();
			/* a row with nothing on it leaves no trace */
			same = same && !(r[0].empty() || r.back().empty());
		}
		certain = certain && clear(s);
		highest = std::max<long>(highest, lrint(top) + r.size() - 1);
		if (any) want.push_back({&s, r, lrint(top)}); else same = false;
	}
	/* rows which would be off the screen are moved up, and so is everything else */
	long const shift = std::max(0L, highest - 23);
	if (shift) same = false;
	if (!certain) same = false;
	if (want.size() != b.subs.size()) {
		string x;
		for (auto& s: b.subs) x += show_sub(s);
		c.fail("number-of-subtitles", mc::format("%zu read back instead of %zu\n", b.subs.size(), want.size()) + x);
	}
	uint64_t o = 0;
	for (size_t i = 0; i < want.size(); ++i) {
		auto& w = want[i];
		auto& g = b.subs[i];
		auto fail = [&](const string& key) { c.fail(key, mc::format("subtitle %zu is read back as\n", i) + show_sub(g) + mc::format("instead of row %ld and\n", w.top - shift) + show(w.rows)); };
		for (int e = 0; e < 2; ++e) {
			sub::Time const& t = e ? g.to : g.from;
			auto const n = nearest(e ? w.s->to : w.s->from, rate->frames);
			long long const k = ((t.hours() * 60LL + t.minutes()) * 60 + t.seconds()) * rate->frames + t.frames_at(sub::Rational(rate->frames, 1));
			if (k < n.first || k > n.second) fail("time");
		}
		vector<Row> got;
		int const first = g.lines.empty() ? 0 : g.lines[0].vertical_position.line.get_value_or(-1);
		for (auto& l: g.lines) {
			Row r;
			for (auto& k: l.blocks) {
				std::wstring t;
				try {
					t = boost::locale::conv::utf_to_utf<wchar_t>(k.text, boost::locale::conv::stop);
				} catch (std::exception&) {
					fail("invalid-utf8");
				}
				for (wchar_t x: t) r.push_back({x, k.italic, k.underline});
			}
			if (l.vertical_position.lines.get_value_or(-1) != 23 || l.vertical_position.reference.get_value_or(sub::TOP_OF_SUBTITLE) != sub::TOP_OF_SCREEN) fail("row-reference");
			if (l.horizontal_position.reference != w.s->lines[0].href) fail("justification");
			if (r.empty()) continue;
			int const row = l.vertical_position.line.get_value_or(-1) - (int) (w.top - shift);
			if (certain && row < 0) fail("row");
			if (certain) {
				if (got.size() >= (size_t) row + 1) fail("row");
				got.resize(row);
			}
			got.push_back(r);
		}
		(void) first;
		vector<Row> e = w.rows;
		if (certain) {
			while (!e.empty() && e.back().empty()) e.pop_back();
		} else {
			e.clear();
			for (auto& r: w.rows) if (!r.empty()) e.push_back(r);
		}
		if (got != e) fail("text-or-row");
		o = mc::mix(o, mc::hash(show_sub(g)));
		c.state(mc::hash(show_sub(g)));
	}
	c.outcome(o);
	c.compared();
	c.step(want.size() + 1);

	/* And again */
	auto const second = back(c, whole, b.meta, "the second");
	if (same && second.bytes != b.bytes) {
		size_t i = 0;
		while (i < second.bytes.size() && i < b.bytes.size() && second.bytes[i] == b.bytes[i]) ++i;
		c.fail("second-file-differs", mc::format("writing what was read gives a file of %zu bytes which differs from the first, of %zu bytes, at %zu", second.bytes.size(), b.bytes.size(), i));
	}
	if (shift == 0 && content(second.subs) != content(b.subs)) {
		c.fail("second-content-differs", "writing what was read and reading it again gives\n" + content(second.subs) + "instead of\n" + content(b.subs));
	}
}

/** Give subtitles different times */
static vector<Sub> timed(vector<Sub> s)
{
	int n = 0;
	for (auto& i: s) {
		i.from = ms(0, 0, 2 * n, 40);
		i.to = ms(0, 0, 2 * n + 1, 480);
		++n;
	}
	return s;
}

static void run(mc::Ctx& c, vector<Sub> s, bool same = true)
{
	if (!c.go()) return;
	check(c, timed(s), Meta(), same);
}

static void times(mc::Ctx& c)
{
	Meta m;
	m.fps = rates[c.pick(8)].fps;
	Sub s = one(L"x");
	bool const end = c.pick(2);
	(end ? s.to : s.from) = gen_time(c);
	if (!c.go()) return;
	check(c, {s}, m);
}

static void metadata(mc::Ctx& c)
{
	Meta m;
	static const vector<string> v = {"", "x", string(31, 'y'), string(32, 'z'), "  sp ", "\xc3\xa9 \xff\x01"};
	for (string* s: {&m.opt, &m.oet, &m.tpt, &m.tet, &m.tn, &m.tcd, &m.pub, &m.en, &m.ecd}) {
		int k = c.dev(v.size() + 1);
		if (k) *s = v[k - 1];
	}
	for (string* s: {&m.cd, &m.rd}) {
		static const vector<string> w = {"000000", "991231", "ABCDEF"};
		int k = c.dev(w.size() + 1);
		if (k) *s = w[k - 1];
	}
	static const vector<string> w = {"   ", "FRA"};
	int k = c.dev(w.size() + 1);
	if (k) m.co = w[k - 1];
	int r = c.dev(101);
	if (r) m.rn = r - 1;
	m.fps = rates[c.dev(8)].fps;
	int l = c.dev(128);
	int n = c.pick(2);
	if (!c.go()) return;
	if (l) {
		sub::STLBinaryTables t;
		try {
			m.language = t.language_file_to_enum(mc::format("%02X", l));
		} catch (std::exception&) {
			return;
		}
	}
	check(c, vector<Sub>(n, one(L"text")), m);
}

/** Characters, alone and in the middle, in both styles */
static void characters(mc::Ctx& c)
{
	auto const& r = printable();
	int ch = r[c.pick(r.size())], next = c.pick(5);
	if (!c.go()) return;
	static wchar_t const others[] = {L'y', 0xe9, 0x159, L' '};
	std::wstring t(1, (wchar_t) ch);
	if (next) t = std::wstring(1, others[next - 1]) + t + others[next - 1];
	Sub s;
	s.lines = {at_row(5, {block(t), block(t, true), block(t, true, true)})};
	check(c, timed({s, s}), Meta());
}

/** Every pair of characters */
static void pairs(mc::Ctx& c)
{
	auto const& r = printable();
	int a = c.pick(r.size());
	if (!c.go()) return;
	vector<Sub> s;
	std::wstring t;
	for (int b: r) {
		t += (wchar_t) r[a];
		t += (wchar_t) b;
		if (t.size() >= 60) {
			s.push_back(one(t));
			t.clear();
		}
	}
	s.push_back(one(t));
	check(c, timed(s), Meta());
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C08";
	return mc::main(argc, argv, o, {
		{"lists", 0, 0, [](mc::Ctx& c) { run(c, gen_list(c, c.thorough() ? 6 : 5)); }},
		{"text", 0, 0, [](mc::Ctx& c) { run(c, gen_text(c, c.thorough() ? 5 : 4)); }},
		{"lengths", 0, 0, [](mc::Ctx& c) { run(c, gen_lengths(c, c.thorough() ? 4000 : 700)); }},
		{"row", 0, 0, [](mc::Ctx& c) { run(c, gen_rows(c, false)); }},
		{"two-rows", 0, 0, [](mc::Ctx& c) { run(c, gen_rows(c, true)); }},
		{"times", 0, 0, times},
		{"metadata", 1, 2, metadata},
		{"characters", 0, 0, characters},
		{"pairs", 0, 0, pairs},
	}, "all lists of up to 5 (thorough 6) subtitles of 10 kinds; all sequences of up to 4 (5) blocks and lines on later, the same and earlier rows, of 12 kinds; every length up to 700 (4000) in 6 styles; every (pair of) vertical position(s) from a list; every millisecond and frame at each rate; values of each (two) metadata fields; all characters of ISO 6937 and all pairs of them; each file is written, read, written again, read and written a third time",
	{"subtitles are in order of time and have different times", "rows beyond the last are moved up on reading (C06)"});
}
