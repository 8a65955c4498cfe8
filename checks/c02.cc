/* C02: WebVTT files.  The model knows only about blocks of lines: it builds a document from blocks and
 * knows from that what cues it contains.
 */
#include "subrip_model.h"
#include "web_vtt_reader.h"

using namespace srt;

static void add_text(const vector<string>& lines, const MT& from, const MT& to, vector<Piece>& out)
{
	int n = 0;
	for (auto const& l: lines) {
		size_t p = 0;
		while (true) {
			size_t q = l.find("\xe2\x80\xa8", p);
			Piece x;
			x.text = l.substr(p, q == string::npos ? q : q - p);
			x.from = from;
			x.to = to;
			x.vref = sub::TOP_OF_SUBTITLE;
			x.has_line = true;
			x.line = n++;
			out.push_back(x);
			if (q == string::npos) {
				break;
			}
			p = q + 3;
		}
	}
}

static void run(mc::Ctx& c, const string& doc, const vector<Piece>& want)
{
	c.input(doc);
	uint64_t h = 0;
	for (auto& p: want) {
		h = mc::mix(h, mc::hash(show_piece(p)));
		c.state(h);
	}
	try {
		sub::WebVTTReader r(doc);
		compare_pieces(c, want, r.subtitles());
	} catch (std::exception& e) {
		c.fail("exception", string("well-formed file rejected: ") + e.what());
	}
}

static string timing(const MT& f, const MT& t) { return stamp(f, '.') + " --> " + stamp(t, '.'); }

struct Model {
	enum { OUTSIDE, TEXT, NOTE } state = OUTSIDE;
	int cues = 0;
	MT from, to;
	vector<string> text;
	vector<Piece> out;

	void finish() { if (state == TEXT) add_text(text, from, to, out); text.clear(); state = OUTSIDE; }
	string add(const string& symbol)
	{
		if (symbol.empty()) {
			finish();
			return symbol;
		}
		if (symbol[0] == 'T' && (symbol == "T" || symbol[1] == '@')) {
			/* a timing line; in a note or in the text of a cue it is just text */
			MT f = nth(2 * cues), t = nth(2 * cues + 1);
			string l = timing(f, t) + (symbol == "T" ? "" : symbol.substr(2));
			if (state == OUTSIDE) {
				state = TEXT;
				from = f;
				to = t;
				++cues;
			} else if (state == TEXT) {
				text.push_back(l);
			}
			return l;
		}
		if (state == TEXT) {
			text.push_back(symbol);
		} else if (state == OUTSIDE && (symbol == "NOTE" || symbol.compare(0, 5, "NOTE ") == 0 || symbol.compare(0, 5, "NOTE\t") == 0)) {
			state = NOTE;
		}
		return symbol;
	}
};

static void lines(mc::Ctx& c, const vector<string>& alphabet, int min, int max)
{
	int n = min + c.pick(max - min + 1);
	vector<string> s;
	for (int i = 0; i < n; ++i) {
		s.push_back(c.of(alphabet));
	}
	if (!c.go()) {
		return;
	}
	string doc = "WEBVTT\n";
	Model m;
	for (auto& i: s) {
		doc += m.add(i) + "\n";
		c.state(mc::hash(mc::format("%d %d %zu %zu", m.state, m.cues, m.text.size(), m.out.size())));
	}
	m.finish();
	run(c, doc, m.out);
}

static const vector<string>& header_lines()
{
	static const vector<string> h = {"WEBVTT", "WEBVTT - title", "WEBVTT\tKind: captions", "WEBVTTx", "\xef\xbb\xbfWEBVTT", "WEBVTT 00:00:01.000 --> 00:00:02.000"};
	return h;
}

/** Everything around the cues: header, metadata, ids, settings, notes, line ends */
static void layout(mc::Ctx& c)
{
	string header = c.devof(header_lines());
	static const vector<string> meta = {"", "Kind: captions\n", "Kind: captions\nLanguage: en\n", "X-TIMESTAMP-MAP=LOCAL:00:00:00.000,MPEGTS:0\n", "NOTE in header\n", "STYLE\n::cue { color: red }\n"};
	string m = c.devof(meta);
	static const vector<string> between = {"", "NOTE\nfoo\n\n", "NOTE one line\n\n", "NOTE a --> b\nc --> d\n\n", "NOTE 00:00:01.000 --> 00:00:02.000\nno\n\n", "NOTE\n00:01:00.000 --> 00:02:00.000\nno\n\n", "STYLE\n::cue {\n color: red\n}\n\n", "REGION\nid:x\n\n", "\n\n", "NOTE\n\n", "NOTE\tx\ny\nz\n\n"};
	static const vector<string> ids = {"", "1\n", "intro\n", "NOTES\n", "NOTE1\n", "a-b - c\n", "WEBVTT\n", "  \n", "->\n", "12:00:00.000\n"};
	static const vector<string> settings = {"", " ", "  ", " align:start", " align:start position:10%", " line:0 position:10% size:5%", " align:start position:10% line:0 size:30%", " a:1 b:2 c:3 d:4 e:5", " region:fred align:left ", "  line:0  "};
	static const vector<string> arrow = {" --> ", "  --> ", " -->  "};
	static const vector<string> texts = {"hello", "two\nlines", "a\xe2\x80\xa8" "b", "<i>styled</i>", "- one\n- two", "<v Fred>x&amp;y", "NOTE not a note", " ", "x\xe2\x80\xa8", "WEBVTT", "1", "\xe2\x80\xa8\xe2\x80\xa8z",
		"-->", "a\n-->\nb", "x --> y", "--> x", "00:00 --> 01:00\nz", "NOTE", "a\nNOTE\nb", "NOTE x --> y", "STYLE", "REGION\nx", "WEBVTT - x", "Kind: captions", "x:\ty "};
	int ncues = 1 + c.pick(3);
	struct K { int between, id, settings, arrow, text; };
	vector<K> k;
	for (int i = 0; i < ncues; ++i) {
		K x;
		x.between = c.dev(between.size());
		x.id = c.dev(ids.size());
		x.settings = c.dev(settings.size());
		x.arrow = c.dev(arrow.size());
		x.text = c.dev(texts.size());
		k.push_back(x);
	}
	int crlf = c.dev(2), end = c.dev(3);
	if (!c.go()) {
		return;
	}
	string doc = header + "\n" + m + "\n";
	vector<Piece> want;
	for (int i = 0; i < ncues; ++i) {
		MT f = nth(3 * i), t = nth(3 * i + 2);
		doc += between[k[i].between] + ids[k[i].id] + stamp(f, '.') + arrow[k[i].arrow] + stamp(t, '.') + settings[k[i].settings] + "\n" + texts[k[i].text] + "\n\n";
		vector<string> l;
		string x;
		for (char ch: texts[k[i].text] + "\n") {
			if (ch == '\n') { l.push_back(x); x.clear(); } else { x += ch; }
		}
		add_text(l, f, t, want);
	}
	if (end == 1) {
		while (doc.back() == '\n') doc.pop_back();
	} else if (end == 2) {
		doc += "\n\nNOTE the end\n";
	}
	if (crlf) {
		string d;
		for (char ch: doc) {
			if (ch == '\n') d += '\r';
			d += ch;
		}
		doc = d;
	}
	run(c, doc, want);
}

static void times(mc::Ctx& c)
{
	int which = c.pick(2), field = c.pick(4);
	static const int sizes[] = {1000, 60, 60, 1100};
	int v = c.pick(sizes[field]);
	int form = c.pick(3);
	if (!c.go()) {
		return;
	}
	MT t = ms(12, 34, 56, 789), o = ms(2000, 1, 2, 3);
	(field == 0 ? t.f : field == 1 ? t.s : field == 2 ? t.m : t.h) = v;
	MT f = which ? o : t, e = which ? t : o;
	string a = stamp(f, '.'), b = stamp(e, '.');
	if (form == 1) {
		a = mc::format("%d:%d:%d.%03d", f.h, f.m, f.s, f.f);
		b = mc::format("%d:%d:%d.%03d", e.h, e.m, e.s, e.f);
	}
	vector<Piece> want;
	add_text({"hello"}, f, e, want);
	run(c, "WEBVTT\n\n" + a + " --> " + b + (form == 2 ? " align:end" : "") + "\nhello\n", want);
}

/** Cues which last for no time or less, and those at the same time, of one line or more */
static void moments(mc::Ctx& c)
{
	int const n = 1 + c.pick(4);
	string doc = "WEBVTT\n\n";
	vector<Piece> want;
	for (int i = 0; i < n; ++i) {
		int const f = c.pick(3), t = c.pick(3), l = 1 + c.pick(2);
		doc += timing(nth(f), nth(t)) + "\n" + (l == 2 ? "first\n" : "") + mc::format("text%d\n\n", i);
		add_text(l == 2 ? vector<string>{"first", mc::format("text%d", i)} : vector<string>{mc::format("text%d", i)}, nth(f), nth(t), want);
	}
	if (!c.go()) {
		return;
	}
	run(c, doc, want);
}

/** @param max largest size, or 0 for sizes around the limits of counters */
static void lengths(mc::Ctx& c, int max)
{
	int kind = c.pick(6), n = max ? 1 + c.pick(max) : c.of(mc::big_sizes());
	if (!c.go()) {
		return;
	}
	string long_text;
	for (int i = 0; i < n; ++i) {
		long_text += "abc def ghi"[i % 11];
	}
	vector<Piece> want;
	string doc = "WEBVTT\n\n";
	MT f = nth(1), t = nth(2);
	switch (kind) {
	case 0:
		doc += timing(f, t) + "\n" + long_text + "\n";
		add_text({long_text}, f, t, want);
		break;
	case 1: {
		vector<string> l;
		doc += timing(f, t) + "\n";
		for (int i = 0; i < n; ++i) {
			l.push_back(mc::format("l%d", i));
			doc += l.back() + "\n";
		}
		add_text(l, f, t, want);
		break;
	}
	case 2:
		for (int i = 0; i < n; ++i) {
			string x = mc::format("cue %d", i);
			doc += timing(nth(i), nth(i + 1)) + "\n" + x + "\n\n";
			add_text({x}, nth(i), nth(i + 1), want);
		}
		break;
	case 3:
		doc += "NOTE ";
		for (int i = 0; i < n; ++i) doc += "x\n" + long_text.substr(0, i % 20) + "-\n";
		doc += "\n" + timing(f, t) + "\n" + long_text + "\n";
		add_text({long_text}, f, t, want);
		break;
	case 4:
		doc += long_text + "\n" + timing(f, t) + " " + long_text + "\nx\n";
		add_text({"x"}, f, t, want);
		break;
	case 5: {
		string x = "a";
		for (int i = 0; i < n; ++i) x += "\xe2\x80\xa8" + long_text.substr(0, i % 4);
		doc += timing(f, t) + "\n" + x + "\n";
		add_text({x}, f, t, want);
		break;
	}
	}
	run(c, doc, want);
}

/** All pairs of bytes in the text of a cue */
static void bytes(mc::Ctx& c)
{
	int a = 1 + c.pick(255), b = c.pick(256), where = c.pick(2);
	if (!c.go()) {
		return;
	}
	string l(1, (char) a);
	if (b) {
		l += (char) b;
	}
	if (l.find('\n') != string::npos || l.find('\r') != string::npos) {
		return;
	}
	if (where) {
		l = "x" + l + "y";
	}
	vector<Piece> want;
	add_text({l}, nth(1), nth(2), want);
	add_text({"z"}, nth(3), nth(4), want);
	run(c, "WEBVTT\n\n" + timing(nth(1), nth(2)) + "\n" + l + "\n\n" + timing(nth(3), nth(4)) + "\nz\n", want);
}

/** Texts that do not begin with WEBVTT are rejected, others are not */
static void header(mc::Ctx& c)
{
	static const string head = "WEBVTT";
	int kind = c.pick(4);
	string h;
	bool good = false;
	if (kind == 0) {
		/* every one-byte change and every truncation */
		int i = c.pick(6), b = c.pick(256);
		h = head;
		h[i] = (char) b;
		good = h == head;
	} else if (kind == 1) {
		int i = c.pick(7);
		h = head.substr(0, i);
		good = i == 6;
	} else if (kind == 2) {
		static const vector<string> hs = {"webvtt", " WEBVTT", "WEB VTT", "1", "00:00:01.000 --> 00:00:02.000", "NOTE", "[Script Info]", "\xfe\xff", "WEBVT", "XWEBVTT", "Webvtt", "\xef\xbbWEBVTT", "\xef\xbb\xbf"};
		h = c.of(hs);
	} else {
		h = c.of(header_lines());
		good = true;
	}
	int rest = c.pick(3);
	if (!c.go()) {
		return;
	}
	static const string rests[] = {"", "\n", "\n\n00:00:01.000 --> 00:00:02.000\nfoo\n"};
	string doc = h + rests[rest];
	if ((h.find('\n') != string::npos)) {

		return;
	}
	c.input(doc);
	c.state(mc::hash(doc));
	c.step();
	bool rejected = false;
	size_t n = 0;
	try {
		sub::WebVTTReader r(doc);
		n = r.subtitles().size();
	} catch (sub::WebVTTHeaderError& e) {
		rejected = true;
	} catch (std::exception& e) {
		c.fail("wrong-exception", e.what());
	}
	c.check(rejected != good, "header", good ? "well-formed header rejected" : "bad header accepted");
	if (good) {
		c.check(n == (rest == 2 ? 1 : 0), "cues", "wrong number of cues");
	}
	c.compared();
	c.outcome(rejected);
}

int main(int argc, char** argv)
{
	static const vector<string> all = {"a", "", "T", "T@ align:start", "NOTE", "NOTE x", "NOTES", "1", "<i>b</i>", "x\xe2\x80\xa8y", "WEBVTT", "STYLE", " ", "T@ a:1 b:2 c:3 d:4"};
	static const vector<string> core = {"a", "", "T", "NOTE", "b"};
	mc::Options o;
	o.property = "C02";
	return mc::main(argc, argv, o, {
		{"layout", 2, 3, layout},
		{"lines-core", 0, -1, [](mc::Ctx& c) { lines(c, core, 1, 8); }},
		{"lines-core-9", -1, 0, [](mc::Ctx& c) { lines(c, core, 1, 9); }},
		{"lines-all", 0, -1, [](mc::Ctx& c) { lines(c, all, 1, 5); }},
		{"lines-all-6", -1, 0, [](mc::Ctx& c) { lines(c, all, 1, 6); }},
		{"moments", 0, 0, moments},
		{"times", 0, 0, times},
		{"lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 2000 : 300); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { lengths(c, 0); }},
		{"bytes", 0, 0, bytes},
		{"header", 0, 0, header},
	}, "every sequence of lines from the alphabets in checks/c02.cc up to the length given, every combination of up to the given number of unusual choices of header, metadata, notes, identifiers, settings, texts and line ends, every value of each time component, every byte pair in a text, all orders of the moments of up to 4 cues, line lengths around powers of two, and every one-byte change of the header; each document is read by the real reader and every piece compared with the reference model",
	{"times are h:m:s.ms, as the property says"});
}
