/* C04: SSA override tags, line breaks and positions */
#include "ssa_model.h"
#include "ssa_reader.h"

using namespace ssa;

struct Setup { Screen screen; Style style; Event e; };

static const vector<Setup>& setups()
{
	static vector<Setup> s;
	if (s.empty()) {
		Setup a;
		a.e = {nth(1), nth(2), 0, 0, 0, ""};
		s.push_back(a);                                   // no style at all
		a.screen = {640, 480};
		a.style.defined = true;
		a.style.primary = rgb8(200, 100, 50);
		a.style.size = 24;
		a.style.l = 30;
		a.style.r = 12;
		a.style.v = 9;
		s.push_back(a);                                   // bottom centre with margins
		a.style.alignment = 7;
		a.style.bold = a.style.italic = a.style.underline = true;
		a.e.l = 5;
		a.e.v = 44;
		s.push_back(a);                                   // top left, margins from the event, all styles on
		a.style.alignment = 6;
		s.push_back(a);                                   // middle right
	}
	return s;
}

static void run(mc::Ctx& c, const Setup& s, const string& text)
{
	string doc = info(s.screen);
	Style st = s.style;
	if (st.defined) {
		doc += "[V4+ Styles]\nFormat: " + join(style_format(), ", ") + "\n" + style_line(st, style_format()) + "\n";
	}
	Event e = s.e, after = s.e;
	e.text = text;
	/* a second event shows that nothing leaks out of the first */
	after.from = nth(7);
	after.to = nth(9);
	after.text = "after\\Nit";
	doc += "[Events]\nFormat: " + join(event_format(), ", ") + "\n" + event_line(e, "Default", event_format()) + event_line(after, "Default", event_format());
	c.input(doc);
	vector<Piece> want;
	event(e, st, s.screen, want);
	uint64_t h = 0;
	for (auto& p: want) {
		h = mc::mix(h, mc::hash(show_piece(p)));
		c.state(h);
	}
	event(after, st, s.screen, want);
	try {
		sub::SSAReader r(doc);
		compare_pieces(c, want, r.subtitles());
	} catch (std::exception& x) {
		c.fail("exception", string("well-formed file rejected: ") + x.what());
	}
}

static bool trimmed(const string& s)
{
	return !s.empty() && s[0] != ' ' && s.back() != ' ';
}

/** All sequences of tokens */
static void tokens(mc::Ctx& c, const vector<string>& alphabet, int min, int max, int nsetups)
{
	auto const& s = setups()[c.pick(nsetups)];
	int n = min + c.pick(max - min + 1);
	string t;
	for (int i = 0; i < n; ++i) {
		t += c.of(alphabet);
	}
	/* what an escaped brace is has not been the same in all versions of the format */
	if (!c.go() || !trimmed(t) || t.find("\\{") != string::npos || t.find("\\}") != string::npos) {
		return;
	}
	/* \pos keeps whatever lines and margins came with it; only its own place is specified */
	if (t.find("\\pos") != string::npos && (s.e.v || s.style.v || t.find("\\N") != string::npos || t.find("\\n") != string::npos || t.find("\\an") != string::npos)) {
		return;
	}
	run(c, s, t);
}

/** All sequences of tags inside one block and in several */
static void blocks(mc::Ctx& c, int max)
{
	static const vector<string> tags = {"\\i1", "\\i0", "\\b1", "\\b0", "\\u1", "\\u0", "\\an1", "\\an5", "\\an9", "\\fs48", "\\c&H0000FF&", "\\c&HFF8001&", "\\c",
		"\\q2", "\\fad(100,200)", "\\clip(0,0,10,20)", "\\fscx120", "\\fsp3", "\\bord2", "\\blur1", "\\k20", "\\alpha&H80&", "\\1c&H123456&", "\\3c&H00FF00&", "\\move(1,2,3,4)", "\\r", "\\fn Arial", "\\shad0", "\\be1", "\\iclip(1,2,3,4)", "\\t(0,1)", "\\org(1,2)", "\\p0", "\\a2", "\\nosuch", "\\N1"};
	int setup = c.pick(3), n = 1 + c.pick(max);
	string t = "x{";
	for (int i = 0; i < n; ++i) {
		t += c.of(tags);
		if (i + 1 < n) {
			static const vector<string> sep = {"", "}{", "}y{"};
			t += c.of(sep);
		}
	}
	int comment = c.pick(2);
	if (!c.go()) {
		return;
	}
	if (comment) {
		t.insert(2, "note");
	}
	run(c, setups()[setup], t + "}z\\Nw");
}

/** Every value of the arguments of tags */
static void values(mc::Ctx& c)
{
	int kind = c.pick(7);
	int setup = c.pick(2);
	string t;
	Setup s = setups()[setup];
	switch (kind) {
	case 0: {
		int ch = c.pick(3), v = c.pick(256), other = c.pick(3), form = c.pick(3);
		int x[3] = {17, 170, 238};
		if (other) x[0] = x[1] = x[2] = other == 1 ? 0 : 255;
		x[ch] = v;
		t = mc::format(form == 0 ? "a{\\c&H%02X%02X%02X&}b{\\c}c" : form == 1 ? "a{\\c&H%02x%02x%02x&\\b1}b{\\c}c" : "{\\c&H%02X%02X%02X&}a{\\i1}b{\\c}c", x[0], x[1], x[2]);
		break;
	}
	case 1: t = mc::format("a{\\fs%d}b{\\i1}c\\Nd", 1 + c.pick(300)); break;
	case 2: case 3: {
		int v = c.pick(700), w = c.pick(3);
		s.e.v = s.style.v = 0;
		t = mc::format("a{\\pos(%d,%d)}b{\\i1}c", kind == 2 ? v : w * 100, kind == 2 ? w * 100 : v);
		break;
	}
	case 6: {
		/* places to the left of and above the screen, and between pixels */
		static vector<string> const n = {"-1", "-100", "-0.5", "0.5", "99.75", "0", "3000", "-3000", "0.125"};
		string const x = c.of(n), y = c.of(n);
		int const form = c.pick(2);
		s.e.v = s.style.v = 0;
		t = form ? "{\\pos(" + x + "," + y + ")}a{\\i1}b" : "a{\\i1\\pos(" + x + "," + y + ")}b";
		break;
	}
	case 5: {
		int const whole = c.pick(30), part = c.pick(10);
		t = mc::format("a{\\fs%d.%d}b{\\fs%d%d5}c", whole + 1, part, whole + 1, part);
		break;
	}
	case 4: t = mc::format("a{\\an%d}b{\\an%d}c\\Nd{\\an%d}e\\nf", 1 + c.pick(9), 1 + c.pick(9), 1 + c.pick(9)); break;
	}
	if (!c.go()) {
		return;
	}
	run(c, s, t);
}

/** Screens of all shapes: wide, tall, square, tiny, huge */
static void screens(mc::Ctx& c)
{
	static vector<int> const sizes = {1, 7, 100, 200, 288, 384, 576, 640, 1080, 1920, 3840, 4096};
	static vector<string> const texts = {"a", "a\\Nb", "{\\an1}a", "a{\\an5}b\\Nc", "{\\an9}a\\Nb\\Nc", "a{\\fs20}b", "{\\fs36\\an8}a\\nb", "{\\fs7.5}a{\\fs300}b", "{\\pos(10,20)}a", "a{\\pos(300,-7)\\i1}b"};
	Setup s = setups()[c.pick(4)];
	int const x = c.of(sizes), y = c.of(sizes);
	string const t = c.of(texts);
	if (!c.go()) {
		return;
	}
	s.screen = {x, y};
	if (t.find("\\pos") != string::npos) {
		s.e.v = s.style.v = 0;
	}
	run(c, s, t);
}

/** Lines broken in every way: number of lines, where the alignment is set, division into pieces */
static void line_breaks(mc::Ctx& c)
{
	int const setup = c.pick(4), nlines = 1 + c.pick(c.thorough() ? 5 : 4), align = c.pick(10), where = c.pick(nlines + 1), size = c.pick(3);
	int split = c.pick(1 << nlines), style = c.pick(2), empty = c.pick(1 << nlines);
	if (!c.go()) {
		return;
	}
	Setup s = setups()[setup];
	if (size) {
		s.style.size = size == 1 ? 10 : 77;
	}
	string t;
	for (int i = 0; i < nlines; ++i) {
		if (i) {
			t += (i + style) % 2 ? "\\N" : "\\n";
		}
		if (i == where && align) {
			t += mc::format("{\\an%d}", align);
		}
		if (empty & (1 << i)) {
			continue;
		}
		t += mc::format("line%d", i);
		if (split & (1 << i)) {
			t += style ? "{\\i1}more{\\i0}" : "{\\u1}more{\\c&H010203&}";
		}
	}
	if (where == nlines && align) {
		t += mc::format("{\\an%d}end", align);
	}
	if (t.empty()) {
		return;
	}
	run(c, s, t);
}

/** Any number of lines */
static void many_lines(mc::Ctx& c, int max)
{
	int const setup = c.pick(4), align = c.pick(10), n = 1 + c.pick(max), kind = c.pick(2);
	if (!c.go()) {
		return;
	}
	string t = align ? mc::format("{\\an%d}", align) : "";
	for (int i = 0; i < n; ++i) {
		t += (i ? i % 2 ? "\\N" : "\\n" : "") + (kind && i % 3 == 1 ? string() : mc::format("l%d", i));
	}
	run(c, setups()[setup], t);
}

/** Direct use of the line parser, as SubRip does, with all combinations of what may be set in advance */
static void direct(mc::Ctx& c)
{
	int vref = c.pick(4) - 1, vprop = c.pick(3), size = c.pick(3), href = c.pick(3), l = c.pick(2), r = c.pick(2);
	static const vector<string> texts = {"a", "a\\Nb", "a{\\an8}b\\Nc\\nd", "{\\an4}x", "{\\an2}x\\Ny", "{\\i1}q{\\i0}w", "a\r\n", "{\\fs20}s", "{\\c}t"};
	int text = c.pick(texts.size());
	if (!c.go()) {
		return;
	}
	static const double props[] = {0, 0, 0.1};
	Setup s;
	s.screen = {720, 360};
	Event e{nth(1), nth(2), l * 36, r * 72, 0, texts[text]};
	if (e.text == "a\r\n") e.text = "a";
	Style st;
	st.defined = true;
	st.size = size == 0 ? 72 : size * 18;
	st.alignment = (vref <= 0 ? 0 : vref == 1 ? 3 : 6) + href + 1;
	st.v = 36 * (vprop == 2);
	vector<Piece> want;
	event(e, st, s.screen, want);
	for (auto& p: want) {
		p.has_font = p.has_effect_colour = false;
		p.effect = -1;
	}
	sub::RawSubtitle base;
	base.from = sub::Time::from_hms(e.from.h, e.from.m, e.from.s, e.from.f);
	base.to = sub::Time::from_hms(e.to.h, e.to.m, e.to.s, e.to.f);
	base.horizontal_position.reference = (sub::HorizontalReference) href_of(st.alignment);
	if (vref >= 0) {
		base.vertical_position.reference = (sub::VerticalReference) vref_of(st.alignment);
	}
	if (vprop) {
		base.vertical_position.proportional = props[vprop];
	}
	if (size) {
		base.font_size.set_proportional(double(st.size) / s.screen.y);
	}
	c.input(mc::format("vref %d vprop %d size %d href %d margins %d %d text ", vref, vprop, size, href, l, r) + texts[text]);
	c.state(mc::hash(mc::format("%d %d %d %d %d %d %d", vref, vprop, size, href, l, r, text)));
	try {
		compare_pieces(c, want, sub::SSAReader::parse_line(base, texts[text], sub::SSAReader::Context(s.screen.x, s.screen.y, sub::Colour(1, 1, 1), e.l, e.r)));
	} catch (std::exception& x) {
		c.fail("exception", x.what());
	}
}

int main(int argc, char** argv)
{
	static const vector<string> full = {"a", "bc", " ", "\\n", "\\N", "{\\i1}", "{\\i0}", "{\\b1}", "{\\b0}", "{\\u1}", "{\\u0}", "{\\an1}", "{\\an2}", "{\\an3}", "{\\an4}", "{\\an5}", "{\\an6}", "{\\an7}", "{\\an8}", "{\\an9}",
		"{\\pos(64,96)}", "{\\fs36}", "{\\fs8}", "{\\c&H0000FF&}", "{\\c&H804020&}", "{\\c}", "{}", "{comment}", "{\\q2}", "{\\i1\\b1}", "{\\an8\\u1\\c&H00FF00&}", "\xc3\xa9", ",", "}", "{\\fad(1,2)}", "\\", "\\h", "\\d"};
	static const vector<string> core = {"a", "\\N", "\\n", "{\\i1}", "{\\i0}", "{\\b1}", "{\\an8}", "{\\an2}", "{\\an4}", "{\\c&H0000FF&}", "{\\c}"};
	mc::Options o;
	o.property = "C04";
	return mc::main(argc, argv, o, {
		{"direct", 0, 0, direct},
		{"line-breaks", 0, 0, line_breaks},
		{"screens", 0, 0, screens},
		{"values", 0, 0, values},
		{"many-lines", 0, 0, [](mc::Ctx& c) { many_lines(c, c.thorough() ? 100 : 40); }},
		{"tokens-full", 0, -1, [](mc::Ctx& c) { tokens(c, full, 1, 3, 4); }},
		{"tokens-full-4-plain", 0, -1, [](mc::Ctx& c) { tokens(c, full, 4, 4, 1); }},
		{"tokens-full-4", -1, 0, [](mc::Ctx& c) { tokens(c, full, 1, 4, 4); }},
		{"tokens-core", 0, -1, [](mc::Ctx& c) { tokens(c, core, 4, 5, 2); }},
		{"tokens-core-6", -1, 0, [](mc::Ctx& c) { tokens(c, core, 5, 6, 4); }},
		{"blocks", 0, -1, [](mc::Ctx& c) { blocks(c, 2); }},
		{"blocks-3", -1, 0, [](mc::Ctx& c) { blocks(c, 3); }},
	}, "all sequences of override blocks, line breaks and text up to the length given over four styles, all sequences of tags in and across blocks, all values of the arguments of tags, tags and lines on screens of 12 x 12 sizes, events of up to 40 (100) lines, all divisions of up to five lines with the alignment set anywhere; every event is read by the real reader and every piece compared with the reference model",
	{"\\pos is compared only without margins, line breaks and \\an in the same event", "the height of a line is that of the font size with which the event starts"});
}
