/* Subtitles to write to binary STL files, and an independent parser of what is written */
#ifndef VERIF_STL_WRITER_MODEL_H
#define VERIF_STL_WRITER_MODEL_H

#include "stl_model.h"
#include "stl_binary_writer.h"
#include <memory>
#include <fstream>
#include <sstream>
#include <unistd.h>

namespace wr {

struct Block {
	std::wstring text;
	bool italic = false, underline = false, bold = false;
};

struct Line {
	int kind = 1;              // 0 no position, 1 proportional, 2 line
	double prop = 0;
	int line = 0, lines = -1;  // lines -1 is unset
	int ref = sub::TOP_OF_SCREEN;   // -1 unset
	int href = sub::HORIZONTAL_CENTRE_OF_SCREEN;
	vector<Block> blocks;

	/** distance from the top in rows */
	double exact() const
	{
		if (kind == 0) return 0;
		double const p = kind == 1 ? prop : double(line) / (lines < 0 ? 23 : lines);
		switch (ref) {
		case sub::VERTICAL_CENTRE_OF_SCREEN: return (p + 0.5) * 23;
		case sub::BOTTOM_OF_SCREEN: return (1 - p) * 23;
		default: return p * 23;
		}
	}

	std::wstring text() const
	{
		std::wstring s;
		for (auto& b: blocks) s += b.text;
		return s;
	}
};

/** n/d seconds */
struct When {
	long long n = 0, d = 1;
	sub::Time time;
};

inline When ms(int h, int m, int s, int x)
{
	return {((h * 60LL + m) * 60 + s) * 1000 + x, 1000, sub::Time::from_hms(h, m, s, x)};
}

inline When frames(int h, int m, int s, int f, int num, int den = 1)
{
	return {((h * 60LL + m) * 60 + s) * num + (long long) f * den, num, sub::Time::from_hmsf(h, m, s, f, sub::Rational(num, den))};
}

/** @return nearest frame(s) since midnight */
inline std::pair<long long, long long> nearest(const When& w, int rate)
{
	long long const x = 2 * w.n * rate;
	long long const a = (x + w.d) / (2 * w.d);
	return {(x + w.d) % (2 * w.d) == 0 ? a - 1 : a, a};
}

struct Sub {
	When from = ms(0, 0, 1, 0), to = ms(0, 0, 2, 0);
	vector<Line> lines;
};

inline sub::Line make(const Line& j)
{
	sub::Line l;
	if (j.kind == 1) l.vertical_position.proportional = j.prop;
	if (j.kind == 2) {
		l.vertical_position.line = j.line;
		if (j.lines >= 0) l.vertical_position.lines = j.lines;
	}
	if (j.ref >= 0) l.vertical_position.reference = (sub::VerticalReference) j.ref;
	l.horizontal_position.reference = (sub::HorizontalReference) j.href;
	for (auto& k: j.blocks) {
		sub::Block b;
		b.text = iso::utf8(k.text);
		b.italic = k.italic;
		b.underline = k.underline;
		b.bold = k.bold;
		if (k.bold) b.colour = sub::Colour(1, 0, 0);
		l.blocks.push_back(b);
	}
	return l;
}

inline vector<sub::Subtitle> make(const vector<Sub>& s)
{
	vector<sub::Subtitle> o;
	for (auto& i: s) {
		sub::Subtitle x;
		x.from = i.from.time;
		x.to = i.to.time;
		for (auto& j: i.lines) x.lines.push_back(make(j));
		o.push_back(x);
	}
	return o;
}

struct Meta {
	float fps = 25;
	sub::Language language = sub::LANGUAGE_ENGLISH;
	string code = "09";
	string opt = "Programme", oet = "Episode", tpt = "Programm", tet = "Folge", tn = "Translator", tcd = "Translator Contact", cd = "140203", rd = "150304";
	int rn = 3;
	string co = "GBR", pub = "Publisher", en = "Editor", ecd = "Editor Contact";
};

inline void write(const vector<sub::Subtitle>& s, const Meta& m, const string& path)
{
	sub::write_stl_binary(s, m.fps, m.language, m.opt, m.oet, m.tpt, m.tet, m.tn, m.tcd, m.cd, m.rd, m.rn, m.co, m.pub, m.en, m.ecd, path);
}

inline const string& path()
{
	static string const p = mc::scratch() + mc::format("/%d.stl", (int) getpid());
	return p;
}

inline string slurp(const string& p)
{
	string s;
	if (FILE* f = fopen(p.c_str(), "rb")) {
		char b[65536];
		size_t n;
		/* in case s cannot be made longer */
		std::shared_ptr<FILE> closer(f, fclose);
		while ((n = fread(b, 1, sizeof(b), f)) > 0) s.append(b, n);
	}
	return s;
}

inline string show(const vector<Sub>& s)
{
	string o;
	int n = 0;
	for (auto& i: s) {
		if (++n > 6) {
			o += mc::format("... %zu subtitles\n", s.size());
			break;
		}
		o += mc::format("%lld/%lld -> %lld/%lld\n", i.from.n, i.from.d, i.to.n, i.to.d);
		for (auto& j: i.lines) {
			o += mc::format("  line kind=%d prop=%g line=%d/%d ref=%d href=%d (row %.3f):", j.kind, j.prop, j.line, j.lines, j.ref, j.href, j.exact());
			for (auto& k: j.blocks) {
				string t = iso::utf8(k.text);
				if (t.size() > 60) t = t.substr(0, 40) + mc::format("...(%zu characters)", k.text.size());
				o += string(" [") + (k.italic ? "I" : "") + (k.underline ? "U" : "") + "|" + t + "]";
			}
			o += "\n";
		}
	}
	return o;
}

/** A character and its style */
struct Ch {
	wchar_t c;
	bool italic, underline;
	bool operator==(const Ch& o) const { return c == o.c && italic == o.italic && underline == o.underline; }
};
typedef vector<Ch> Row;

inline string show(const vector<Row>& rows)
{
	string s;
	for (auto& r: rows) {
		s += "  row: ";
		for (auto& c: r) s += iso::utf8(std::wstring(1, c.c)) + (c.italic ? "/" : "") + (c.underline ? "_" : "");
		s += "\n";
	}
	return s;
}

/** @return what each row of text should be */
inline vector<Row> rows(const Sub& s)
{
	vector<Row> o;
	long last = 0;
	for (auto& j: s.lines) {
		long const r = lrint(j.exact());
		if (o.empty()) {
			o.push_back({});
			last = r;
		} else {
			long const next = std::max(r, last + 1);
			o.resize(o.size() + next - last);
			last = next;
		}
		for (auto& k: j.blocks) {
			for (wchar_t c: iso::round_trip(k.text)) o.back().push_back({c, k.italic, k.underline});
		}
	}
	return o;
}

/** @return true if the row of every line is beyond doubt */
inline bool clear(const Sub& s)
{
	for (auto& j: s.lines) {
		double const e = j.exact();
		if (fabs(fabs(e - rint(e)) - 0.5) < 1e-3) return false;
	}
	return true;
}

/** A subtitle as it is in a file */
struct Written {
	vector<string> blocks;
	string text() const
	{
		string s;
		for (auto& b: blocks) s += b.substr(16);
		return s;
	}
	int byte(int i) const { return (unsigned char) blocks[0][i]; }
};

/** Check the structure of a file, and split it into subtitles */
inline vector<Written> parse(mc::Ctx& c, const string& f)
{
	if (f.size() < 1024 || (f.size() - 1024) % 128) c.fail("file-size", mc::format("the file is %zu bytes long", f.size()));
	size_t const n = (f.size() - 1024) / 128;
	vector<Written> o;
	bool more = false;
	for (size_t i = 0; i < n; ++i) {
		string const b = f.substr(1024 + 128 * i, 128);
		int const ebn = (unsigned char) b[3];
		if (!more) o.push_back({});
		if (ebn != 0xff && ebn != (int) o.back().blocks.size()) {
			c.fail("extension-block-number", mc::format("block %zu has extension block number %02x but is number %zu of its subtitle", i, ebn, o.back().blocks.size()));
		}
		if (more) {
			string const& a = o.back().blocks[0];
			if (a.substr(0, 3) != b.substr(0, 3) || a.substr(4, 12) != b.substr(4, 12)) {
				c.fail("extension-block-differs", mc::format("block %zu differs from the first of its subtitle: %s, %s", i, mc::show(b.substr(0, 16)).c_str(), mc::show(a.substr(0, 16)).c_str()));
			}
		}
		o.back().blocks.push_back(b);
		more = ebn != 0xff;
	}
	if (more) c.fail("extension-block-number", "the last block of the file does not have extension block number FF");
	return o;
}

/** Decode the text of a subtitle, checking that it is well formed */
inline vector<Row> decode(mc::Ctx& c, const string& t)
{
	vector<Row> o(1);
	bool italic = false, underline = false, end = false;
	string run;
	auto flush = [&]() {
		for (wchar_t x: iso::decode(run)) o.back().push_back({x, italic, underline});
		run = "";
	};
	for (unsigned char x: t) {
		if (end && x != 0x8f) c.fail("padding", "there is text after the first 8F: " + mc::show(t));
		if (x == 0x8f) {
			end = true;
		} else if (x == 0x8a) {
			flush();
			o.push_back({});
		} else if (x >= 0x80 && x <= 0x83) {
			flush();
			bool& b = x & 2 ? underline : italic;
			if (b == !(x & 1)) c.fail("unbalanced", "italic or underline is turned on or off twice: " + mc::show(t));
			b = !b;
		} else if (x < 0x20 || (x >= 0x7f && x < 0xa0)) {
			c.fail("control-code", mc::format("there is a control code %02x in the text", x));
		} else {
			run += (char) x;
		}
	}
	flush();
	if (italic || underline) c.fail("unbalanced", "italic or underline is left on: " + mc::show(t));
	return o;
}

/* Generators */

/** All characters of ISO 6937 which are not control codes */
inline const vector<int>& printable()
{
	static vector<int> v;
	if (v.empty()) {
		for (int i: iso::repertoire()) if (i >= 0x20 && !(i >= 0x7f && i < 0xa0)) v.push_back(i);
	}
	return v;
}

inline std::wstring letters(int n, int from = 0)
{
	std::wstring s;
	for (int i = 0; i < n; ++i) s += (wchar_t) (L'a' + (i + from) % 26);
	return s;
}

inline Block block(const std::wstring& t, bool i = false, bool u = false)
{
	Block b;
	b.text = t;
	b.italic = i;
	b.underline = u;
	return b;
}

inline Line at_row(int r, vector<Block> b = {})
{
	Line l;
	l.kind = 2;
	l.line = r;
	l.lines = 23;
	l.blocks = b;
	return l;
}

inline Sub one(const std::wstring& t, int row = 20)
{
	Sub s;
	s.lines = {at_row(row, {block(t)})};
	return s;
}

/** Blocks and lines in any order */
inline vector<Sub> gen_text(mc::Ctx& c, int max)
{
	Sub s;
	s.lines = {at_row(10)};
	int n = 1 + c.pick(max);
	for (int i = 0; i < n; ++i) {
		auto add = [&](Block b) { s.lines.back().blocks.push_back(b); };
		switch (c.pick(12)) {
		case 0: s.lines.push_back(at_row(s.lines.back().line + 1)); break;
		case 10: s.lines.push_back(at_row(s.lines.back().line)); break;
		case 11: s.lines.push_back(at_row(s.lines.back().line - 2)); break;
		case 1: add(block(L"a")); break;
		case 2: add(block(L"b", true)); break;
		case 3: add(block(L"c", false, true)); break;
		case 4: add(block(L"de", true, true)); break;
		case 5: add(block(L"\u00e9\u0159", true)); break;
		case 6: add(block(L"", true)); break;
		case 7: s.lines.push_back(at_row(s.lines.back().line + 3)); break;
		case 8: { Block b = block(L"\u20ac$ \u2014x"); b.bold = true; add(b); } break;
		case 9: add(block(L"\u0394 ", false, true)); break;     // nothing that can be represented but the space
		}
	}
	return {s};
}

/** One subtitle of each length, with styles and accents at its ends */
inline vector<Sub> gen_lengths(mc::Ctx& c, int max)
{
	int n = c.pick(max + 1), style = c.pick(6);
	Sub s;
	std::wstring t = letters(n);
	vector<Block> b;
	switch (style) {
	case 0: b = {block(t)}; break;
	case 1: b = {block(t, true)}; break;
	case 2: b = {block(t, true, true)}; break;
	case 3: b = {block(t + L"\u00fc"), block(L"z", true)}; break;
	case 4: {
		/* a change of style every few characters */
		for (int i = 0; i < n; i += 7) b.push_back(block(t.substr(i, 7), i % 2, i % 3 == 0));
		break;
	}
	case 5: {
		std::wstring u;
		for (int i = 0; i < n; ++i) u += (wchar_t) printable()[(i * 13) % printable().size()];
		b = {block(u)};
		break;
	}
	}
	s.lines = {at_row(20, b)};
	return {s};
}

/** Lists of subtitles of different kinds */
inline vector<Sub> gen_list(mc::Ctx& c, int max)
{
	int n = c.pick(max + 1);
	vector<Sub> o;
	for (int i = 0; i < n; ++i) {
		Sub s;
		switch (c.pick(10)) {
		case 0: s = one(L"plain"); break;
		case 1: s.lines = {at_row(4, {block(L"italic", true)})}; s.lines[0].href = sub::LEFT_OF_SCREEN; break;
		case 2: s.lines = {at_row(18, {block(L"x"), block(L"under", false, true)}), at_row(21, {block(L"both", true, true)})}; s.lines[1].href = sub::LEFT_OF_SCREEN; break;
		case 3: s = one(letters(111)); break;
		case 4: s = one(letters(112)); s.lines[0].href = sub::RIGHT_OF_SCREEN; break;
		case 5: s = one(letters(300)); break;
		case 6: s.lines = {at_row(9, {block(letters(109), true)})}; break;
		case 7: break;        // no lines
		case 8: s.lines = {at_row(2, {block(letters(111) + L"\u00e9")}), at_row(3, {block(letters(120))})}; break;
		case 9: s.lines = {at_row(7, {block(L"mixed", true), block(L" \u00e0", true, true), block(L"", false)}), at_row(8, {block(L"p")}), at_row(9, {block(L"q", true)})}; break;
		}
		s.from = ms(0, 0, 2 * i, 40);
		s.to = ms(0, 0, 2 * i + 1, 400);
		o.push_back(s);
	}
	return o;
}

/** Vertical positions of one or two lines */
inline vector<Sub> gen_rows(mc::Ctx& c, bool two)
{
	static vector<Line> const all = []() {
		vector<Line> o;
		for (int r: {-1, (int) sub::TOP_OF_SCREEN, (int) sub::VERTICAL_CENTRE_OF_SCREEN, (int) sub::BOTTOM_OF_SCREEN, (int) sub::TOP_OF_SUBTITLE}) {
			for (double p: {0.0, 0.01, 0.05, 0.1, 0.25, 0.33, 0.45, 0.5, 0.66, 0.75, 0.9, 0.97, 1.0}) {
				if (r == sub::TOP_OF_SUBTITLE || (r == sub::VERTICAL_CENTRE_OF_SCREEN && p > 0.5)) continue;
				Line l;
				l.kind = 1;
				l.prop = p;
				l.ref = r;
				o.push_back(l);
				if (r == sub::VERTICAL_CENTRE_OF_SCREEN && p > 0) {
					l.prop = -p;
					o.push_back(l);
				}
			}
			for (int n: {-1, 10, 15, 23, 24, 47, 100}) {
				for (int i = 0; i <= (n < 0 ? 23 : n); i += n > 30 ? 9 : n > 20 ? 4 : 3) {
					if (r == sub::VERTICAL_CENTRE_OF_SCREEN && i * 2 > n) continue;
					Line l;
					l.kind = 2;
					l.line = i;
					l.lines = n;
					l.ref = r;
					o.push_back(l);
				}
			}
		}
		Line none;
		none.kind = 0;
		o.push_back(none);
		none.ref = -1;
		o.push_back(none);
		return o;
	}();
	Sub s;
	s.lines.push_back(c.of(all));
	s.lines[0].blocks = {block(L"first")};
	int h = 0;
	if (two) {
		s.lines.push_back(c.of(all));
		s.lines[1].blocks = {block(L"second", true)};
	} else {
		h = c.pick(3);
	}
	for (auto& l: s.lines) l.href = h == 0 ? sub::HORIZONTAL_CENTRE_OF_SCREEN : h == 1 ? sub::LEFT_OF_SCREEN : sub::RIGHT_OF_SCREEN;
	return {s};
}

/** Rates and what the disk format code for each should be */
struct Rate { float fps; const char* dfc; int frames; };
static Rate const rates[] = {{25, "STL25.01", 25}, {24, "STL24.01", 24}, {30, "STL30.01", 30}, {23.976f, "STL23.01", 24}, {29.97f, "STL25.01", 25}, {50, "STL25.01", 25}, {12, "STL25.01", 25}, {24000.0f / 1001, "STL23.01", 24}};

inline When gen_time(mc::Ctx& c)
{
	static vector<When> const all = []() {
		vector<When> o;
		for (int x = 0; x < 1000; ++x) o.push_back(ms(0, 0, 1, x));
		for (int x: {0, 1, 19, 20, 21, 500, 979, 980, 981, 983, 984, 999}) {
			o.push_back(ms(0, 0, 0, x));
			o.push_back(ms(0, 0, 59, x));
			o.push_back(ms(0, 59, 59, x));
			o.push_back(ms(9, 59, 59, x));
			o.push_back(ms(10, 8, 9, x));
			o.push_back(ms(22, 59, 59, x));
			o.push_back(ms(23, 59, 58, x));
		}
		for (int r: {24, 25, 30, 48, 50, 60, 12}) {
			for (int f = 0; f < r; ++f) {
				o.push_back(frames(0, 0, 3, f, r));
				o.push_back(frames(1, 59, 59, f, r));
			}
		}
		for (int f = 0; f < 24; ++f) o.push_back(frames(0, 0, 4, f, 24000, 1001));
		for (int f = 0; f < 30; ++f) o.push_back(frames(0, 0, 59, f, 30000, 1001));
		return o;
	}();
	return c.of(all);
}

}

#endif
