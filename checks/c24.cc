/* C24: converting any file that can be read to binary STL */
#include "stl_writer_model.h"
#include "source.h"
#include "collect.h"
#include "reader_factory.h"
#include "ssa_reader.h"
#include "stl_binary_reader.h"
#include "subrip_reader.h"
#include "web_vtt_reader.h"
#include <algorithm>
#include <boost/locale.hpp>

using namespace wr;

/** A character and its style */
struct Letter {
	wchar_t c;
	bool italic, underline;
	bool operator==(const Letter& o) const { return c == o.c && italic == o.italic && underline == o.underline; }
};

typedef std::vector<Letter> Chars;
typedef std::vector<Chars> Text;

/** What is in a document, whatever its format */
struct Cue {
	int from = 0, to = 0;              ///< in ms
	Text lines;
	vector<string> before;             ///< markup, other than of italic and underline, before each line
	string settings;                   ///< after the times
	int row = 10, justification = 2;   ///< in binary STL
	int alignment = 2;                 ///< of the style in SSA
	int margins[3] = {0, 0, 0};        ///< in SSA
};

enum Format { SUBRIP, WEBVTT, SSA, ASS, BINARY, FORMATS };
static const char* const names[] = {"SubRip", "WebVTT", "SSA", "ASS", "binary STL"};

static string hms(int ms, const char* f, int unit)
{
	return mc::format(f, ms / 3600000, ms / 60000 % 60, ms / 1000 % 60, ms % 1000 / unit);
}

/** Text with markup */
static string marked(const Cue& q, Format f)
{
	string o;
	bool i = false, u = false;
	for (size_t l = 0; l < q.lines.size(); ++l) {
		if (l) o += f == BINARY ? "\x8a" : f == SSA || f == ASS ? "\\N" : "\n";
		if (l < q.before.size()) o += q.before[l];
		for (size_t n = 0; n <= q.lines[l].size(); ++n) {
			bool const end = n == q.lines[l].size();
			/* SubRip elements are closed on the line where they were opened */
			bool const wi = end ? (f == SUBRIP ? false : i) : q.lines[l][n].italic, wu = end ? (f == SUBRIP ? false : u) : q.lines[l][n].underline;
			switch (f) {
			case SUBRIP:
				if (wi != i || wu != u) {
					if (u) o += "</u>";
					if (i) o += "</i>";
					if (wi) o += "<i>";
					if (wu) o += "<u>";
				}
				break;
			case SSA: case ASS:
				if (wi != i) o += wi ? "{\\i1}" : "{\\i0}";
				if (wu != u) o += wu ? "{\\u1}" : "{\\u0}";
				break;
			case BINARY:
				if (wi != i) o += wi ? "\x80" : "\x81";
				if (wu != u) o += wu ? "\x82" : "\x83";
				break;
			default:
				break;
			}
			i = wi;
			u = wu;
			if (!end) {
				std::wstring const w(1, q.lines[l][n].c);
				o += f == BINARY ? iso::encode(w) : iso::utf8(w);
			}
		}
	}
	return o;
}

/** A style for each alignment */
static string style(string which)
{
	string o;
	for (int i = 1; i <= 9; ++i) o += mc::format("Style: A%d,Arial,20,", i) + which + mc::format(",%d,10,10,10\n", i);
	return o + "\n";
}

static string document(const vector<Cue>& cues, Format f)
{
	string o;
	switch (f) {
	case SUBRIP: {
		int n = 0;
		for (auto& q: cues) o += mc::format("%d\n", ++n) + hms(q.from, "%02d:%02d:%02d,%03d", 1) + " --> " + hms(q.to, "%02d:%02d:%02d,%03d", 1) + q.settings + "\n" + marked(q, f) + "\n\n";
		break;
	}
	case WEBVTT:
		o = "WEBVTT\n\n";
		for (auto& q: cues) o += hms(q.from, "%02d:%02d:%02d.%03d", 1) + " --> " + hms(q.to, "%02d:%02d:%02d.%03d", 1) + q.settings + "\n" + marked(q, f) + "\n\n";
		break;
	case SSA: case ASS:
		o = "[Script Info]\nScriptType: v4.00+\nPlayResX: 384\nPlayResY: 288\n\n";
		o += f == SSA ? string() + "[V4 Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, Italic, Alignment, MarginL, MarginR, MarginV\n" + style("65535,0,0")
			: string() + "[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, Bold, Italic, Underline, Alignment, MarginL, MarginR, MarginV\n" + style("&H0000FFFF,0,0,0");
		o += "[Events]\nFormat: Layer, Start, End, Style, Name, MarginL, MarginR, MarginV, Effect, Text\n";
		for (auto& q: cues) o += "Dialogue: 0," + hms(q.from, "%d:%02d:%02d.%02d", 10) + "," + hms(q.to, "%d:%02d:%02d.%02d", 10) + mc::format(",A%d,,%d,%d,%d,,", q.alignment, q.margins[0], q.margins[1], q.margins[2]) + marked(q, f) + "\n";
		break;
	case BINARY: {
		vector<stl::Tti> t;
		stl::Gsi g;
		g.v["DFC"] = "STL25.01";
		g.v["TNS"] = mc::format("%05d", (int) cues.size());
		int sn = 0;
		for (auto& q: cues) {
			string const text = marked(q, f);
			for (size_t at = 0, n = 0; at < text.size() || at == 0; ++n) {
				stl::Tti b;
				b.sn = sn;
				b.in = {q.from / 3600000, q.from / 60000 % 60, q.from / 1000 % 60, q.from % 1000 / 40, 25};
				b.out = {q.to / 3600000, q.to / 60000 % 60, q.to / 1000 % 60, q.to % 1000 / 40, 25};
				b.vp = q.row;
				b.jc = q.justification;
				b.text = text.substr(at, 112);
				at += 112;
				b.ebn = at < text.size() ? n : 0xff;
				t.push_back(b);
			}
			++sn;
		}
		o = stl::file(g, t);
		break;
	}
	default:
		abort();
	}
	return o;
}

struct Rate_ { float fps; int frames; };
static Rate_ const fps[] = {{25, 25}, {24, 24}, {30, 30}, {23.976f, 24}, {29.97f, 25}};

typedef vector<sub::Subtitle> Subs;

static Subs read(const string& bytes, Format f, bool by_name)
{
	if (by_name && (f == SUBRIP || f == BINARY)) {
		string const p = mc::scratch() + mc::format("/%d-in.%s", (int) getpid(), f == SUBRIP ? "srt" : "STL");
		FILE* o = fopen(p.c_str(), "wb");
		fwrite(bytes.data(), 1, bytes.size(), o);
		fclose(o);
		auto r = sub::reader_factory(p);
		return sub::collect<Subs>(r->subtitles());
	}
	std::istringstream in(bytes);
	FILE* file = nullptr;
	std::shared_ptr<FILE> closer;
	switch (f) {
	case SUBRIP: return sub::collect<Subs>(sub::SubripReader(bytes).subtitles());
	case WEBVTT: return sub::collect<Subs>(sub::WebVTTReader(bytes).subtitles());
	case SSA: return sub::collect<Subs>(sub::SSAReader(bytes).subtitles());
	case ASS:
		file = fmemopen((void*) bytes.data(), bytes.size(), "r");
		closer.reset(file, fclose);
		return sub::collect<Subs>(sub::SSAReader(file).subtitles());
	default: return sub::collect<Subs>(sub::STLBinaryReader(in).subtitles());
	}
}

static string show_text(const Text& l)
{
	string o;
	for (auto& i: l) {
		o += "  [";
		bool it = false, un = false;
		for (auto& x: i) {
			if (x.italic != it) o += x.italic ? "<i>" : "</i>";
			if (x.underline != un) o += x.underline ? "<u>" : "</u>";
			it = x.italic;
			un = x.underline;
			o += iso::utf8(std::wstring(1, x.c));
		}
		o += "]\n";
	}
	return o;
}

/** The lines which have something on them */
static Text lines(const sub::Subtitle& s)
{
	Text o;
	for (auto& l: s.lines) {
		Chars r;
		for (auto& k: l.blocks) for (wchar_t x: boost::locale::conv::utf_to_utf<wchar_t>(k.text)) r.push_back({x, k.italic, k.underline});
		if (!r.empty()) o.push_back(r);
	}
	return o;
}

static void convert(mc::Ctx& c, vector<Cue> cues, Format f, const Rate_& rate, bool by_name)
{
	string const doc = document(cues, f);
	c.input(mc::format("%s, to %g frames per second%s:\n", names[f], rate.fps, by_name ? ", by name" : "") + mc::show(f == BINARY ? doc.substr(1024) : doc));
	Subs first, second;
	float back_rate = 0;
	try {
		first = read(doc, f, by_name);
		Meta m;
		m.fps = rate.fps;
		write(first, m, path());
		auto r = sub::reader_factory(path());
		second = sub::collect<Subs>(r->subtitles());
		auto b = std::dynamic_pointer_cast<sub::STLBinaryReader>(r);
		if (!b) c.fail("kind", "what was written is not taken for binary STL");
		back_rate = b->frame_rate;
	} catch (mc::Failure&) {
		throw;
	} catch (std::exception& e) {
		c.fail("exception", e.what());
	}
	(void) back_rate;

	/* what should come out */
	std::stable_sort(cues.begin(), cues.end(), [](const Cue& a, const Cue& b) { return a.from < b.from; });
	vector<Cue> want;
	for (auto& q: cues) {
		Cue k = q;
		k.lines.clear();
		for (auto& l: q.lines) {
			Chars r;
			for (Letter x: l) {
				if (f == WEBVTT) x.italic = x.underline = false;
				r.push_back(x);
			}
			if (!r.empty()) k.lines.push_back(r);
		}
		if (!k.lines.empty()) want.push_back(k);
	}
	auto compare = [&](const char* which, const Subs& got, bool frames, bool representable) {
		size_t n = 0;
		for (auto& q: want) {
			auto e = q.lines;
			if (representable) {
				for (auto& l: e) {
					Chars r;
					for (auto& x: l) if (iso::round_trip(std::wstring(1, x.c)).size() == 1) r.push_back(x);
					l = r;
				}
				e.erase(std::remove_if(e.begin(), e.end(), [](const Chars& l) { return l.empty(); }), e.end());
				if (e.empty()) continue;
			}
			/* subtitles without text may or may not be there */
			while (n < got.size() && lines(got[n]).empty()) ++n;
			if (n >= got.size()) c.fail(string(which) + "-missing", mc::format("only %zu subtitles; this is missing:\n", got.size()) + show_text(e));
			auto g = lines(got[n]);
			if (!(g == e)) c.fail(string(which) + "-text", mc::format("%s: subtitle %zu is\n", which, n) + show_text(g) + "instead of\n" + show_text(e));
			for (int k = 0; k < 2; ++k) {
				sub::Time const& t = k ? got[n].to : got[n].from;
				int const ms = k ? q.to : q.from;
				bool ok;
				if (frames) {
					auto const near = nearest(wr::ms(0, 0, 0, ms), rate.frames);
					long long const x = ((t.hours() * 60LL + t.minutes()) * 60 + t.seconds()) * rate.frames + t.frames_at(sub::Rational(rate.frames, 1));
					ok = x >= near.first && x <= near.second;
				} else {
					ok = ((t.hours() * 60LL + t.minutes()) * 60 + t.seconds()) * 1000 + t.milliseconds() == ms;
				}
				if (!ok) c.fail(string(which) + "-time", mc::format("%s: subtitle %zu %s at %s instead of %d ms", which, n, k ? "ends" : "starts", show_time(t).c_str(), ms));
			}
			++n;
		}
		while (n < got.size() && lines(got[n]).empty()) ++n;
		if (n != got.size()) c.fail(string(which) + "-invented", mc::format("%s: there are %zu subtitles instead of %zu", which, got.size(), n));
	};
	compare("source", first, false, f == BINARY);
	compare("result", second, true, true);
	uint64_t h = f;
	for (auto& q: want) c.state(h = mc::mix(h, mc::hash(show_text(q.lines) + mc::format("%d %d", q.from, q.to))));
	c.outcome(h);
	c.step(want.size() + 1);
	c.compared();
}

/** @param s text; \1 \2 start italic, underline, \3 \4 end them, newline is a new line */
static Cue cue(const std::wstring& s, int from = 1000, int to = 2000)
{
	Cue q;
	q.from = from;
	q.to = to;
	q.lines.resize(1);
	bool i = false, u = false;
	for (wchar_t x: s) {
		switch (x) {
		case 1: i = true; break;
		case 2: u = true; break;
		case 3: i = false; break;
		case 4: u = false; break;
		case '\n': q.lines.push_back({}); break;
		default: q.lines.back().push_back({x, i, u});
		}
	}
	return q;
}

static std::wstring repeat(int n)
{
	std::wstring s;
	for (int i = 0; i < n; ++i) s += (wchar_t) ('a' + i % 26);
	return s;
}

static vector<std::wstring> const kinds = {
	L"plain", L"two\nlines", L"\1all italic\3", L"one \2word\4 of it", L"\1over\nlines\3", L"\1i\2iu\3u\4 none", L"caf\xe9 \x159 \x14b \x20ac", L"A\x6f22\x42f" L"b",
	L"\2ends underlined\4", L"three\n\1short\3\nlines"
};

static void lists(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	int const n = c.pick(c.thorough() ? 5 : 4);
	vector<Cue> q;
	for (int i = 0; i < n; ++i) q.push_back(cue(kinds[c.pick(kinds.size())], 1000 + i * 2000, 2480 + i * 2000));
	auto const& r = fps[n <= 2 ? c.pick(5) : 0];
	bool const by_name = c.pick(f == SUBRIP || f == BINARY ? 2 : 1);
	if (!c.go()) return;
	convert(c, q, f, r, by_name);
}

static void text(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	int const n = c.pick(c.thorough() ? 7 : 5) + 1;
	static vector<std::wstring> const parts = {L"x", L"A b", L"\1", L"\2", L"\3", L"\4", L"\n", L"\xe9", L","};
	std::wstring s;
	for (int i = 0; i < n; ++i) s += parts[c.pick(parts.size())];
	if (!c.go()) return;
	auto q = cue(s);
	/* a cue ends at a blank line, and an empty line has no trace in some formats: leave them out */
	q.lines.erase(std::remove_if(q.lines.begin(), q.lines.end(), [](const Chars& l) { return l.empty(); }), q.lines.end());
	if (q.lines.empty()) return;
	convert(c, {q, cue(L"next", 3000, 4000)}, f, fps[0], false);
}

/** Everything that says where on the screen the lines are to be, or how they look */
static void placement(mc::Ctx& c, int max)
{
	auto const f = (Format) c.pick(FORMATS);
	int const n = 1 + c.pick(max);
	static vector<string> const
		subrip = {"", "{\\an1}", "{\\an2}", "{\\an5}", "{\\an8}", "{\\an9}", "{\\pos(100,20)}", "{\\pos(100,200)}", "{\\an8\\pos(10,250.5)}", "{\\fs30}", "{\\b1}", "{\\c&H0000FF&}", "<font color=\"#ff0000\">", "</font>", "<b>", "\xe2\x80\xab"},
		ssa = {"", "{\\an1}", "{\\an2}", "{\\an5}", "{\\an8}", "{\\an9}", "{\\fs30}", "{\\fs8}", "{\\b1}", "{\\c&H0000FF&}", "{\\c}", "{\\fad(100,200)}"},
		binary = {"", "\x01", "\x03\x04", "\x07"},
		settings = {"", " line:0", " line:84% position:20% align:start", " align:middle size:50%", " vertical:rl"},
		none = {""};
	auto& b = f == SUBRIP ? subrip : f == BINARY ? binary : f == WEBVTT ? none : ssa;
	Cue q = cue(n == 1 ? L"one" : n == 2 ? L"o\1n\3e\ntwo" : n == 3 ? L"one\n\1two\nth\3ree" : L"\2one\ntwo\nthree\4\nfour");
	for (int i = 0; i < n; ++i) q.before.push_back(c.of(b));
	switch (f) {
	case SUBRIP:
		if (c.pick(2)) q.settings = " X1:100 X2:200 Y1:300 Y2:400";
		break;
	case WEBVTT:
		q.settings = c.of(settings);
		break;
	case SSA: case ASS: {
		q.alignment = 1 + c.pick(9);
		/* the place in full, which is that of the first line */
		int const pos = c.pick(3);
		if (pos) q.before[0] += pos == 1 ? "{\\pos(100,20)}" : "{\\pos(38.5,301)}";
		if (c.pick(2)) q.margins[0] = q.margins[2] = 150;
		break;
	}
	case BINARY:
		q.row = c.pick(27);
		q.justification = c.pick(4);
		break;
	default:
		break;
	}
	if (!c.go()) return;
	convert(c, {q, cue(L"next\nplain", 3000, 4000)}, f, fps[0], false);
}

/** Many cues */
static void sizes(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	int const n = c.of(mc::big_sizes());
	if (!c.go()) return;
	if (n > 33000) return;
	vector<Cue> q;
	for (int i = 0; i < n; ++i) q.push_back(cue(kinds[(i * 7 + i / 10) % kinds.size()], i * 2000, i * 2000 + 1480));
	convert(c, q, f, fps[0], false);
}

static void lengths(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	int const n = c.pick(c.thorough() ? 1500 : 400) + 1;
	int const style = c.pick(4);
	if (!c.go()) return;
	std::wstring s = repeat(n);
	switch (style) {
	case 1: s = L"\1" + s + L"\3"; break;
	case 2: s = s.substr(0, n / 2) + L"\1\2" + s.substr(n / 2) + L"\3\4\nq"; break;
	case 3: for (int i = 0; i < n; i += 7) s[i] = 0xe9; break;
	}
	convert(c, {cue(s), cue(L"next", 3000, 4000)}, f, fps[0], false);
}

static void times(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	auto const& r = fps[c.pick(5)];
	int const unit = f == BINARY ? 40 : f == SSA || f == ASS ? 10 : 1;
	bool const end = c.pick(2);
	static vector<int> const whole = {0, 7, 3599, 7199, 33007, 36000, 82799};
	int const base = whole[c.pick(c.thorough() ? 7 : 3) * (c.thorough() ? 1 : 3)];
	int const x = c.pick(1000 / unit) * unit;
	if (!c.go()) return;
	int const t = base * 1000 + x;
	auto q = cue(L"x");
	if (end) {
		q.from = 0;
		q.to = t;
	} else {
		q.from = t;
		q.to = 82799960;
	}
	convert(c, {q}, f, r, false);
}

/** In and out of order, apart, touching and overlapping */
static void order(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	int const n = c.pick(c.thorough() ? 4 : 3) + 1;
	static vector<int> const t = {1000, 2000, 3000, 3040};
	vector<Cue> q;
	static const wchar_t* const texts[] = {L"first", L"\1second\3", L"third\nof \2them\4", L"fourth"};
	std::vector<std::pair<int, int>> used;
	bool distinct = true;
	for (int i = 0; i < n; ++i) {
		int const a = t[c.pick(3)], b = t[c.pick(4)];
		for (auto& u: used) distinct = distinct && u != std::make_pair(a, b);
		used.push_back({a, b});
		q.push_back(cue(texts[i], a, b));
	}
	if (!c.go()) return;
	for (auto& u: used) distinct = distinct && u.first <= u.second;
	if (!distinct) return;
	convert(c, q, f, fps[0], false);
}

static void characters(mc::Ctx& c)
{
	auto const f = (Format) c.pick(FORMATS);
	auto const& r = printable();
	int const ch = r[c.pick(r.size())], context = c.pick(4);
	if (!c.go()) return;
	/* which begin markup */
	if (ch == '<' || ch == '>' || ch == '{' || ch == '}' || (ch == '\\' && context == 2) || ch == '&') return;
	std::wstring s(1, (wchar_t) ch);
	if (context == 1) s = L"a" + s + L"b";
	if (context == 2) s = L"\1" + s + L"\3" + s;
	if (context == 3) s = s + L"\n" + s + s;
	/* alone it is a blank line, or space around the text */
	if (ch == ' ' && context != 1) return;
	convert(c, {cue(s), cue(L"next", 3000, 4000)}, f, fps[0], false);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C24";
	return mc::main(argc, argv, o, {
		{"lists", 0, 0, lists},
		{"placement", 0, -1, [](mc::Ctx& c) { placement(c, 3); }},
		{"placement-4", -1, 0, [](mc::Ctx& c) { placement(c, 4); }},
		{"text", 0, 0, text},
		{"lengths", 0, 0, lengths},
		{"sizes", 0, 0, sizes},
		{"times", 0, 0, times},
		{"order", 0, 0, order},
		{"characters", 0, 0, characters},
	}, "for each of SubRip, WebVTT, SSA, ASS and binary STL: all lists of up to 3 (thorough 4) cues of 10 kinds, all sequences of up to 3 (4) placements (alignments, \\pos, margins, rows) of lines in the formats that have them, all texts of up to 5 (7) tokens out of 9, every length up to 400 (1500), every time unit in several seconds, all orders of up to 3 (4) overlapping cues, every character of ISO 6937; converted to each rate",
	{"no two cues have the same times", "no blank lines within cues", "text STL has no frame rate and so cannot be written"});
}
