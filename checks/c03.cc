/* C03: SSA/ASS files: sections, formats, styles, margins, times */
#include "ssa_model.h"
#include "ssa_reader.h"
#include <algorithm>

using namespace ssa;

static void run(mc::Ctx& c, const string& doc, const vector<Piece>& want)
{
	c.input(doc);
	uint64_t h = 0;
	for (auto& p: want) {
		h = mc::mix(h, mc::hash(show_piece(p)));
		c.state(h);
	}
	try {
		sub::SSAReader r(doc);
		compare_pieces(c, want, r.subtitles());
	} catch (std::exception& e) {
		c.fail("exception", string("well-formed file rejected: ") + e.what());
	}
}

static Style style(const string& name, int k)
{
	Style s;
	s.defined = true;
	s.name = name;
	s.font = "Font" + name;
	s.size = 20 + k;
	s.primary = rgb8(10 * k, 200 - k, 7 + k);
	s.back = rgb8(k, 2 * k, 255 - 3 * k);
	s.bold = k & 1;
	s.italic = k & 2;
	s.underline = k & 4;
	s.shadow = k % 3;
	s.alignment = 1 + k % 9;
	s.l = 10 + k;
	s.r = 30 - k;
	s.v = 5 + 2 * k;
	return s;
}

static string styles_section(const vector<Style>& styles, const vector<string>& format = style_format(), const string& heading = "[V4+ Styles]")
{
	string d = heading + "\nFormat: " + join(format, ", ") + "\n";
	for (auto& s: styles) {
		d += style_line(s, format);
	}
	return d + "\n";
}

static string events_heading(const vector<string>& format = event_format(), const string& sep = ", ")
{
	return "[Events]\nFormat: " + join(format, sep) + "\n";
}

/** Every value of each field of a style */
static void style_values(mc::Ctx& c)
{
	int kind = c.pick(10);
	Style s = style("Default", 4);
	Screen screen{640, 480};
	vector<string> format = style_format();
	string primary, back;
	auto number = [](unsigned bgr, int form) {
		switch (form) {
		case 0: return mc::format("&H%06X", bgr);
		case 1: return mc::format("&H00%06X", bgr);
		case 2: return mc::format("&Hc8%06x", bgr);
		case 3: return mc::format("&H%06X&", bgr);
		case 4: return mc::format("%u", bgr);
		default: return mc::format("&H%X", bgr);
		}
	};
	switch (kind) {
	case 0: s.size = 1 + c.pick(300); break;
	case 1: case 2: {
		int channel = c.pick(3), v = c.pick(256), form = c.pick(6), other = c.pick(3);
		int ch[3] = {17, 170, 238};
		if (other) ch[0] = ch[1] = ch[2] = other == 1 ? 0 : 255;
		ch[channel] = v;
		string t = number(ch[0] | (ch[1] << 8) | (ch[2] << 16), form);
		(kind == 1 ? s.primary : s.back) = rgb8(ch[0], ch[1], ch[2]);
		(kind == 1 ? primary : back) = t;
		break;
	}
	case 3: s.bold = c.pick(2); s.italic = c.pick(2); s.underline = c.pick(2); s.shadow = c.pick(2); break;
	case 4: s.alignment = 1 + c.pick(9); break;
	case 5: s.l = c.pick(700); break;
	case 6: s.r = c.pick(700); break;
	case 7: s.v = c.pick(500); break;
	case 8: {
		static const vector<string> names = {"Arial", "Times New Roman", "x", "A.B-c_d", "\xc3\x89t\xc3\xa9", "@Font", "12", "", "a:b", "&H00FF00", "-1"};
		s.font = c.of(names);
		break;
	}
	case 9: {
		/* any field (but the name) missing */
		int i = 1 + c.pick(format.size() - 1);
		string f = format[i];
		format.erase(format.begin() + i);
		Style d;
		if (f == "Fontsize") s.size = 72;
		else if (f == "PrimaryColour") s.primary = RGB();
		else if (f == "Bold") s.bold = false;
		else if (f == "Italic") s.italic = false;
		else if (f == "Underline") s.underline = false;
		else if (f == "BorderStyle") s.shadow = false;
		else if (f == "Alignment") s.alignment = 2;
		else if (f == "MarginL") s.l = 0;
		else if (f == "MarginR") s.r = 0;
		else if (f == "MarginV") s.v = 0;
		else if (f == "Fontname" || f == "BackColour") s.name = "!" + f;
		break;
	}
	}
	int align = c.pick(3);
	if (!c.go()) {
		return;
	}
	if (align && kind != 4) {
		s.alignment = align == 1 ? 4 : 9;
	}
	bool no_font = s.name == "!Fontname", no_back = s.name == "!BackColour";
	if (kind == 9) {
		s.name = "Default";
		if (std::find(format.begin(), format.end(), "Alignment") == format.end()) s.alignment = 2;
	}
	string sl = style_line(s, format);
	auto replace = [&](const string& from, const string& to) { size_t p = sl.find(from); if (p != string::npos) sl.replace(p, from.size(), to); };
	if (!primary.empty()) replace("&H00" + hex(s.primary) + ",&H0300", primary + ",&H0300");
	if (!back.empty()) replace("&H00112233,&H" + hex(s.back), "&H00112233," + back);
	string doc = info(screen) + "[V4+ Styles]\nFormat: " + join(format, ", ") + "\n" + sl + "\n" + events_heading();
	Event e{nth(1), nth(2), 0, 0, 0, "hello"};
	doc += event_line(e, "Default", event_format());
	vector<Piece> want;
	event(e, s, screen, want);
	for (auto& p: want) {
		if (no_font) { p.has_font = false; }
		if (no_back) { p.has_effect_colour = false; }
	}
	run(c, doc, want);
}

/** Margins of style and event, alignment and screen */
static void margins(mc::Ctx& c)
{
	static const int values[] = {0, 10, 50};
	Style s = style("Default", 3);
	s.alignment = 1 + c.pick(9);
	int a[6];
	for (auto& i: a) {
		i = values[c.pick(3)];
	}
	int sc = c.pick(3);
	bool has_style = c.pick(2);
	if (!c.go()) {
		return;
	}
	Screen screen;
	if (sc == 1) { screen.x = 1920; screen.y = 1080; }
	if (sc == 2) { screen.x = 384; }
	s.l = a[0]; s.r = a[1]; s.v = a[2];
	Event e{nth(1), nth(2), a[3], a[4], a[5], "hello\\Nworld"};
	string doc = sc ? info(screen) : "[Script Info]\n\n";
	if (has_style) {
		doc += styles_section({s});
	}
	doc += events_heading() + event_line(e, "Default", event_format());
	vector<Piece> want;
	event(e, has_style ? s : Style(), screen, want);
	run(c, doc, want);
}

static void times(mc::Ctx& c)
{
	int which = c.pick(2), field = c.pick(4);
	static const int sizes[] = {100, 60, 60, 130};
	int v = c.pick(sizes[field]), form = c.pick(2);
	if (!c.go()) {
		return;
	}
	MT t = cs(1, 34, 56, 78), o = cs(200, 1, 2, 3);
	(field == 0 ? t.f : field == 1 ? t.s : field == 2 ? t.m : t.h) = v * (field == 0 ? 10 : 1);
	Event e{which ? o : t, which ? t : o, 0, 0, 0, "x"};
	string l = event_line(e, "Default", event_format());
	if (form) {
		/* two-digit hours */
		l = "Dialogue: 0," + mc::format("%02d:%02d:%02d.%02d", e.from.h, e.from.m, e.from.s, e.from.f / 10) + "," +
			mc::format("%02d:%02d:%02d.%02d", e.to.h, e.to.m, e.to.s, e.to.f / 10) + ",Default,,0000,0000,0000,,x\n";
	}
	vector<Piece> want;
	event(e, Style(), Screen(), want);
	run(c, "[Script Info]\n" + events_heading() + l, want);
}

/** Every order of the fields in the Format line of events (text last, as the format requires) and the presence of each */
static void event_formats(mc::Ctx& c)
{
	static const vector<string> fields = {"Style", "MarginL", "MarginV", "MarginR", "Start", "End", "Layer"};
	int n = 2 + c.pick(6);
	vector<string> left = {"Start", "End", "Style", "MarginV", "MarginL", "MarginR", "Name"};
	left.resize(n);
	vector<string> format;
	for (int i = 0; i < n; ++i) {
		int k = c.pick(left.size());
		format.push_back(left[k]);
		left.erase(left.begin() + k);
	}
	int sep = c.pick(2);
	if (!c.go()) {
		return;
	}
	format.push_back("Text");
	auto has = [&](const char* f) { return std::find(format.begin(), format.end(), f) != format.end(); };
	Style a = style("Default", 2), b = style("B", 7);
	Screen screen{320, 200};
	vector<Piece> want;
	string doc = info(screen) + styles_section({a, b}) + events_heading(format, sep ? "," : ", ");
	for (int i = 0; i < 3; ++i) {
		Event e{nth(2 * i), nth(2 * i + 3), i ? 11 * i : 0, i == 1 ? 22 : 0, i == 2 ? 0 : 33, mc::format("a, b,c {\\i1\\c&H030201&}%d,{\\c}z", i)};
		doc += event_line(e, i == 1 ? "B" : "Default", format);
		if (!has("MarginL")) e.l = 0;
		if (!has("MarginR")) e.r = 0;
		if (!has("MarginV")) e.v = 0;
		event(e, !has("Style") ? Style() : i == 1 ? b : a, screen, want);
	}
	run(c, doc, want);
}

/** Rotations and swaps of the fields of a style */
static void style_formats(mc::Ctx& c)
{
	vector<string> f = style_format();
	int i = c.pick(f.size()), j = c.pick(f.size()), rot = c.pick(f.size()), heading = c.pick(2);
	if (!c.go()) {
		return;
	}
	std::swap(f[i], f[j]);
	std::rotate(f.begin(), f.begin() + rot, f.end());
	Style a = style("Default", 2), b = style("B", 7);
	Screen screen{320, 200};
	vector<Piece> want;
	string doc = info(screen) + styles_section({b, a}, f, heading ? "[V4 Styles]" : "[V4+ Styles]") + events_heading();
	for (int k = 0; k < 2; ++k) {
		Event e{nth(2 * k), nth(2 * k + 1), 0, 0, 0, "x"};
		doc += event_line(e, k ? "B" : "Default", event_format());
		event(e, k ? b : a, screen, want);
	}
	run(c, doc, want);
}

/** Sequences of events, and which styles exist */
static void sequences(mc::Ctx& c, int max)
{
	int which = c.pick(5);
	struct Kind { const char* style; int l, r, v; const char* type; const char* text; };
	static const Kind kinds[] = {
		{"Default", 0, 0, 0, "Dialogue", "a{\\c}A"}, {"**B", 0, 0, 0, "Dialogue", "b{\\i1\\c&H102030&}c{\\c}C"}, {"*B", 5, 0, 0, "Dialogue", "d\\Ne"}, {"Nope", 0, 6, 0, "Dialogue", "f{\\c&H405060&}F{\\c}G"},
		{"**Default", 0, 0, 7, "Dialogue", "{\\an7}g"}, {"B", 0, 0, 0, "Comment", "no"}, {"", 0, 0, 0, "Dialogue", "h{\\fs99}i"}, {"*Default", 0, 0, 0, "Dialogue", "{\\pos(1,2)}"},
		{"b", 3, 4, 5, "Dialogue", "j"}, {"Default", 0, 0, 0, "Movie", "x"},
	};
	int n = 1 + c.pick(max);
	vector<int> s;
	for (int i = 0; i < n; ++i) {
		s.push_back(c.pick(10));
	}
	if (!c.go()) {
		return;
	}
	Style a = style("Default", 2), b = style("B", 7), b2 = style("B", 5);
	/* 0: Default, B; 1: B only; 2: Default only; 3: B then Default then B again with other values; 4: none */
	vector<Style> st;
	if (which == 0) st = {a, b};
	if (which == 1) st = {b};
	if (which == 2) st = {a};
	if (which == 3) st = {b, a, b2};
	std::map<string, Style> m;
	for (auto& i: st) m[i.name] = i;
	Screen screen{320, 200};
	string doc = info(screen) + (st.empty() ? string() : styles_section(st)) + events_heading();
	vector<Piece> want;
	for (int i = 0; i < n; ++i) {
		auto& k = kinds[s[i]];
		Event e{nth(3 * i), nth(2 * i + 7), k.l, k.r, k.v, k.text};
		doc += event_line(e, k.style, event_format(), k.type);
		if (string(k.type) != "Dialogue") {
			continue;
		}
		string name = k.style;
		while (!name.empty() && name[0] == '*') name = name.substr(1);
		Style u;
		if (m.count(name)) u = m[name];
		else if (m.count("Default")) u = m["Default"];
		event(e, u, screen, want);
	}
	run(c, doc, want);
}

/** Every sequence of parts of a file: each part of a section repeats, changes or adds to what came before */
static void sections(mc::Ctx& c, int max)
{
	int const n = 1 + c.pick(max);
	vector<int> s;
	for (int i = 0; i < n; ++i) s.push_back(c.pick(12));
	if (!c.go()) return;
	string doc = "[Script Info]\n";
	Screen screen;
	std::map<string, Style> styles;
	vector<string> ef, sf;
	vector<Piece> want;
	char in = 'I';
	bool events = false;
	int k = 0;
	auto add_style = [&](const Style& a) { doc += style_line(a, sf); styles[a.name] = a; };
	auto add_event = [&](const char* name) {
		Event e{nth(3 * k), nth(2 * k + 7), k, 0, 2 * k, mc::format("event %d, more\\Nof{\\c}it", k)};
		++k;
		doc += event_line(e, name, ef);
		auto has = [&](const char* f) { return std::find(ef.begin(), ef.end(), f) != ef.end(); };
		if (!has("MarginL")) e.l = 0;
		if (!has("MarginV")) e.v = 0;
		if (!has("Style")) name = "";
		Style u;
		while (*name == '*') ++name;
		if (has("Style")) {
			if (styles.count(name)) u = styles[name];
			else if (styles.count("Default")) u = styles["Default"];
		}
		event(e, u, screen, want);
		events = true;
	};
	for (int i: s) {
		/* what is said about the screen and the styles applies to the events after it, and nobody puts it after them */
		if (i < 7 && events) return;
		switch (i) {
		case 0: doc += "[Script Info]\nPlayResX: 640\n"; screen.x = 640; in = 'I'; break;
		case 1: doc += "[Script Info]\nTitle: x\nPlayResY: 480\n"; screen.y = 480; in = 'I'; break;
		case 2: doc += "[V4+ Styles]\nFormat: " + join(sf = style_format(), ", ") + "\n"; in = 'S'; break;
		case 3: doc += "[V4 Styles]\nFormat: " + join(sf = {"Fontsize", "Name", "Alignment", "MarginV", "Fontname", "BorderStyle", "Bold", "Italic", "Underline", "MarginL", "MarginR", "BackColour", "PrimaryColour"}, ",") + "\n"; in = 'S'; break;
		case 4: if (in != 'S') return; add_style(style("Default", 2)); break;
		case 5: if (in != 'S') return; add_style(style("Default", 9)); break;
		case 6: if (in != 'S') return; add_style(style("B", 4)); break;
		case 7: doc += "[Events]\nFormat: " + join(ef = event_format(), ", ") + "\n"; in = 'E'; break;
		case 8: doc += "[Events]\nFormat: " + join(ef = {"End", "Start", "MarginV", "Style", "Text"}, ",") + "\n"; in = 'E'; break;
		case 9: if (in != 'E') return; add_event("Default"); break;
		case 10: if (in != 'E') return; add_event("**B"); break;
		case 11: doc += "[Fonts]\nx\n"; in = 'F'; break;
		}
	}
	if (!events) return;
	run(c, doc, want);
}

/** Texts: commas and everything else that is not a tag */
static void texts(mc::Ctx& c, int max)
{
	static const vector<string> t = {"a", ",", ":", " ", ";", "[", "Dialogue: ", "\xc3\xa9", "}", "/", "%", "&", "=", "//", "!", ",,", ", ", "\\", "\\h"};
	int n = 1 + c.pick(max);
	string s;
	for (int i = 0; i < n; ++i) {
		s += c.of(t);
	}
	if (!c.go() || s[0] == ' ' || s.back() == ' ') {
		return;
	}
	Event e{nth(1), nth(2), 0, 0, 0, s}, f{nth(1), nth(2), 0, 0, 0, "z"};
	vector<Piece> want;
	event(e, Style(), Screen(), want);
	event(f, Style(), Screen(), want);
	run(c, "[Script Info]\n" + events_heading() + event_line(e, "Default", event_format()) + event_line(f, "Default", event_format()), want);
}

/** Everything around: sections, comments, blank lines, screen size, line ends */
static void layout(mc::Ctx& c)
{
	static const vector<string> bom = {"", "\xef\xbb\xbf"};
	static const vector<string> noise = {"", "; comment\n", "\n", ";\n", "  \n", ";Dialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,no\n", "; [Events]\n", "\n\n; x: y\n\n"};
	static const vector<string> inf = {"", "Title: foo\n", "Original Script: a, b: c\n", "Collisions: Normal\nTimer: 100.0000\n", "PlayDepth: 0\n", "Synch Point:\n", "Style: no\n", "Format: Text\n", "Dialogue: no\n"};
	static const vector<string> resx = {"PlayResX: 320\n", "", "PlayResX:320\n", "PlayResX: 1920\n", "PlayResX:   7  \n", "PlayResX: 1\n"};
	static const vector<string> resy = {"PlayResY: 200\n", "", "PlayResY:200\n", "PlayResY: 1080\n", "PlayResY: 7\n", "PlayResY: 1\n"};
	static const int xs[] = {320, 288, 320, 1920, 7, 1}, ys[] = {200, 288, 200, 1080, 7, 1};
	static const vector<string> other = {"", "[Fonts]\nfontname: foo.ttf\n!!<M=)8,:\nno colon here\n\n", "[Graphics]\nxyz\n", "[Aegisub Project Garbage]\nLast Style Storage: Default\nVideo File: x\nDialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,no\nStyle: no\n\n",
		"[Aegisub Extradata]\n\n", "[]\n", "[events]\nDialogue: 0,0:00:01.00,0:00:02.00,Default,,0,0,0,,no\n", "[V4 styles]\nStyle: Default,x\n"};
	static const vector<string> head = {"[V4+ Styles]\n", "[V4 Styles]\n", "\n[V4+ Styles]\n\n", "  [V4+ Styles]  \n"};
	static const vector<string> sep = {", ", ",", " , "};
	static const vector<string> ev = {"[Events]\n", " [Events]\t\n", "[Events]\n\n"};
	struct N { int n; } nz[7];
	string b = c.devof(bom), s_inf = c.devof(inf);
	int x = c.dev(resx.size()), y = c.dev(resy.size()), order = c.dev(2);
	string o1 = c.devof(other), hd = c.devof(head), sp = c.devof(sep), o2 = c.devof(other), e1 = c.devof(ev), esep = c.devof(sep), o3 = c.devof(other);
	int colon = c.dev(4), crlf = c.dev(2), tail = c.dev(3);
	for (auto& i: nz) {
		i.n = c.dev(noise.size());
	}
	int again = c.dev(2);
	if (!c.go()) {
		return;
	}
	Screen screen{xs[x], ys[y]};
	string rs = order ? resy[y] + resx[x] : resx[x] + resy[y];
	Style a = style("Default", 2), bb = style("B", 7);
	string doc = b + noise[nz[0].n] + "[Script Info]\n" + s_inf + noise[nz[1].n] + rs + noise[nz[2].n] + o1 + hd + noise[nz[3].n] + "Format: " + join(style_format(), sp) + "\n";
	doc += style_line(a, style_format()) + noise[nz[4].n] + style_line(bb, style_format()) + o2 + e1 + noise[nz[5].n] + "Format: " + join(event_format(), esep) + "\n";
	vector<Piece> want;
	for (int i = 0; i < 3; ++i) {
		Event e{nth(3 * i), nth(2 * i + 7), i, 2 * i, 3 * i, mc::format("text %d, more", i)};
		string l = event_line(e, i % 2 ? "B" : "Default", event_format());
		if (colon == 1) l.replace(0, 10, "Dialogue:");
		if (colon == 2) l.replace(0, 10, "Dialogue:   ");
		if (colon == 3) l = "  " + l;
		doc += l;
		if (i == 0) doc += noise[nz[6].n];
		if (i == 1) {
			doc += o3;
			if (again || !o3.empty()) doc += "[Events]\nFormat: " + join(event_format(), esep) + "\n";
		}
		event(e, i % 2 ? bb : a, screen, want);
	}
	if (tail == 1) doc.pop_back();
	if (tail == 2) doc += "\n\n[Fonts]\nend";
	if (crlf) {
		string d;
		for (char ch: doc) {
			if (ch == '\n') d += '\r';
			d += ch;
		}
		doc = d;
	}
	run(c, doc, want);
}

/** @param max largest size, or 0 for sizes around the limits of counters */
static void lengths(mc::Ctx& c, int max)
{
	int kind = c.pick(4), n = max ? 1 + c.pick(max) : c.of(mc::big_sizes());
	if (!c.go()) {
		return;
	}
	if (kind == 3 && n > 600) {
		/* positions so far off the screen are only as exact as a float */
		return;
	}
	Screen screen{320, 200};
	Style a = style("Default", 2);
	vector<Style> st = {a};
	vector<Event> ev;
	vector<string> names;
	string t;
	for (int i = 0; i < n; ++i) t += "abc,def{ghi"[i % 7];
	if (kind == 0) { ev.push_back({nth(1), nth(2), 0, 0, 0, t}); names.push_back("Default"); }
	if (kind == 1) for (int i = 0; i < n; ++i) { ev.push_back({nth(i), nth(i + 2), i % 5, 0, i % 3, t.substr(0, 1 + i % 20)}); names.push_back("Default"); }
	if (kind == 2) for (int i = 0; i < n; ++i) { st.push_back(style(mc::format("S%d", i), i % 20)); ev.push_back({nth(i), nth(i + 2), 0, 0, 0, "a"}); names.push_back(st.back().name); }
	if (kind == 3) { string u = "a"; for (int i = 0; i < n; ++i) u += i % 2 ? "\\Nb" : "{\\i1}{\\b0}c"; ev.push_back({nth(1), nth(2), 0, 0, 0, u}); names.push_back("Default"); }
	string doc = info(screen) + styles_section(st) + events_heading();
	vector<Piece> want;
	std::map<string, Style const*> by_name;
	for (auto& s: st) by_name[s.name] = &s;
	for (size_t i = 0; i < ev.size(); ++i) {
		doc += event_line(ev[i], names[i], event_format());
		event(ev[i], *by_name.at(names[i]), screen, want);
	}
	run(c, doc, want);
}

/** Every two bytes in a text */
static void bytes(mc::Ctx& c)
{
	int const a = 1 + c.pick(255), b = c.pick(256);
	if (!c.go()) {
		return;
	}
	string s = "x" + string(1, (char) a) + (b ? string(1, (char) b) : string()) + "y";
	/* the ends of lines, and blocks of tags */
	if (s.find_first_of("\n\r{") != string::npos || s.find("\\}") != string::npos) {
		return;
	}
	Event e{nth(1), nth(2), 0, 0, 0, s}, f{nth(1), nth(2), 0, 0, 0, "z"};
	vector<Piece> want;
	event(e, Style(), Screen(), want);
	event(f, Style(), Screen(), want);
	run(c, "[Script Info]\n" + events_heading() + event_line(e, "Default", event_format()) + event_line(f, "Default", event_format()), want);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C03";
	return mc::main(argc, argv, o, {
		{"layout", 2, 3, layout},
		{"style-values", 0, 0, style_values},
		{"margins", 0, 0, margins},
		{"times", 0, 0, times},
		{"sections", 0, 0, [](mc::Ctx& c) { sections(c, c.thorough() ? 7 : 6); }},
		{"event-formats", 0, 0, event_formats},
		{"style-formats", 0, 0, style_formats},
		{"sequences", 0, -1, [](mc::Ctx& c) { sequences(c, 4); }},
		{"sequences-6", -1, 0, [](mc::Ctx& c) { sequences(c, 6); }},
		{"texts", 0, -1, [](mc::Ctx& c) { texts(c, 4); }},
		{"texts-6", -1, 0, [](mc::Ctx& c) { texts(c, 5); }},
		{"bytes", 0, 0, bytes},
		{"lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 1000 : 200); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { lengths(c, 0); }},
	}, "every choice sequence of each scenario: all values of every style field and time component, all combinations of style and event margins, alignment and screen, all orders of the event fields, swaps and rotations of the style fields, all event sequences from the alphabet, all sequences of up to 6 (7) section headers, formats, styles and events, and up to the given number of unusual choices of everything around; each document is read by the real reader and every piece compared with the reference model",
	{"Text is the last field of an event, as the format requires", "alignment numbers are those of ASS (numeric keypad)"});
}
