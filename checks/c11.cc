/* C11: collecting pieces into subtitles */
#include "mc.h"
#include "collect.h"
#include "raw_subtitle.h"
#include "subtitle.h"
#include <deque>
#include <list>
#include <sstream>

using std::string;
using std::vector;

/* What a piece is made of.  Times are given as an instant and a way to write it. */
struct P { int from, to, fade, pos; };

static sub::Time instant(int k, bool rated)
{
	/* even k: whole seconds in one rate; odd k: the same instant in another */
	static int const rates[] = {25, 1000};
	int const s = 1 + k / 2;
	if (!rated) return sub::Time::from_hmsf(0, 0, s / 2, (s & 1) * 12);
	int const r = rates[k & 1];
	return sub::Time::from_hmsf(0, 0, s, r * 2 / 5, sub::Rational(r, 1));
}

static int same_time(int k) { return k / 2; }

static sub::VerticalPosition position(int k)
{
	sub::VerticalPosition v;
	switch (k) {
	case 0: v.proportional = 0.1f; v.reference = sub::TOP_OF_SCREEN; break;
	case 1: v.line = 1; v.reference = sub::TOP_OF_SUBTITLE; break;
	case 2: break;                                              // unknown: never the same as another
	case 3: v.proportional = 0.2f; v.reference = sub::TOP_OF_SCREEN; break;
	case 4: v.proportional = 0.1f; v.reference = sub::BOTTOM_OF_SCREEN; break;
	case 5: v.line = 1; v.lines = 10; v.reference = sub::TOP_OF_SCREEN; break;
	case 6: v.line = 1; v.lines = 20; v.reference = sub::TOP_OF_SCREEN; break;
	case 7: v.line = 2; v.lines = 20; v.reference = sub::TOP_OF_SCREEN; break;
	case 8: v.line = 2; v.reference = sub::TOP_OF_SUBTITLE; break;
	case 9: v.line = 2; v.lines = 20; v.reference = sub::BOTTOM_OF_SCREEN; break;
	case 10: v.proportional = 0.1001f; v.reference = sub::TOP_OF_SCREEN; break;
	}
	return v;
}

static bool same_position(int a, int b) { return a == b && a != 2; }

static sub::RawSubtitle make(const P& p, int id, bool rated)
{
	sub::RawSubtitle r;
	r.text = id % 5 == 3 ? "" : mc::format("t%d", id);
	r.from = instant(p.from, rated);
	r.to = instant(p.to + 8, rated);
	if (p.fade & 1) r.fade_up = instant(p.fade & 8 ? 2 : 0, rated);
	if (p.fade & 2) r.fade_down = instant(p.fade & 4 ? 2 : 0, rated);
	r.vertical_position = position(p.pos);
	if (id % 2) r.font = mc::format("font%d", id);
	if (id % 3 == 0) r.font_size.set_points(10 + id); else if (id % 3 == 1) r.font_size.set_proportional(0.1f + id);
	if (id % 4 == 1) r.effect = sub::BORDER;
	if (id % 4 == 2) r.effect = sub::SHADOW;
	if (id % 3 == 2) r.effect_colour = sub::Colour(id, 0.5, 0.25);
	r.colour = sub::Colour(0.5, id, 1);
	r.bold = id & 1;
	r.italic = id & 2;
	r.underline = id & 4;
	r.horizontal_position.reference = (sub::HorizontalReference) (id % 3);
	r.horizontal_position.proportional = 0.01f * id;
	return r;
}

/** Everything in an optional, a position etc. */
template <class T> static string opt(const boost::optional<T>& o) { return o ? mc::format("%g", (double) *o) : string("-"); }
static string col(const sub::Colour& c) { return mc::format("%g,%g,%g", c.r, c.g, c.b); }
template <class B> static string style(const B& b)
{
	return "\"" + b.text + "\" " + (b.font ? *b.font : "-") + " " + opt(b.font_size.proportional()) + " " + opt(b.font_size.points()) + " " + (b.effect ? mc::format("%d", (int) *b.effect) : "-") + " " +
		(b.effect_colour ? col(*b.effect_colour) : "-") + " " + col(b.colour) + mc::format(" %d%d%d", b.bold, b.italic, b.underline);
}
template <class L> static string place(const L& l)
{
	auto& v = l.vertical_position;
	return mc::format("h%d:%g v", l.horizontal_position.reference, l.horizontal_position.proportional) + opt(v.proportional) + " " + opt(v.line) + "/" + opt(v.lines) + " " +
		(v.reference ? mc::format("%d", (int) *v.reference) : "-");
}
template <class S> static string times(const S& s, bool rated)
{
	auto t = [&](const sub::Time& x) {
		if (rated) return mc::format("%d:%d:%d.%d", x.hours(), x.minutes(), x.seconds(), x.frames_at(sub::Rational(8000, 1)));
		std::ostringstream o;
		o << x;
		return o.str();
	};
	return t(s.from) + " -> " + t(s.to) + " up " + (s.fade_up ? t(*s.fade_up) : "-") + " down " + (s.fade_down ? t(*s.fade_down) : "-");
}

template <class C> static string show(const C& subs, bool rated)
{
	string o;
	for (auto& s: subs) {
		o += "S " + times(s, rated) + "\n";
		for (auto& l: s.lines) {
			o += "  L " + place(l) + "\n";
			for (auto& b: l.blocks) o += "    B " + style(b) + "\n";
		}
	}
	return o;
}

static void check(mc::Ctx& c, const vector<P>& p, bool rated)
{
	vector<sub::RawSubtitle> raw;
	string in;
	for (size_t i = 0; i < p.size(); ++i) {
		raw.push_back(make(p[i], i, rated));
		in += mc::format("(from %d to %d fade %d position %d) ", p[i].from, p[i].to, p[i].fade, p[i].pos);
	}
	c.input(in + (rated ? "" : "no rate"));

	/* pieces in order of start */
	vector<int> order;
	for (int t = 0; t < 64; ++t) {
		for (size_t i = 0; i < p.size(); ++i) if (same_time(p[i].from) == t) order.push_back(i);
	}
	string want;
	uint64_t h = 0;
	for (size_t k = 0; k < order.size(); ++k) {
		auto& x = p[order[k]];
		bool same = false, line = false;
		if (k) {
			auto& y = p[order[k - 1]];
			same = same_time(x.from) == same_time(y.from) && same_time(x.to) == same_time(y.to) && x.fade == y.fade;
			line = same && same_position(x.pos, y.pos);
		}
		auto r = make(x, order[k], rated);
		if (!same) want += "S " + times(r, rated) + "\n";
		if (!line) want += "  L " + place(r) + "\n";
		want += "    B " + style(r) + "\n";
		c.state(h = mc::mix(h, mc::hash(style(r)) + same + 2 * line));
	}

	auto const before = raw;
	string a, b, d;
	try {
		a = show(sub::collect<vector<sub::Subtitle>>(raw), rated);
		b = show(sub::collect<std::list<sub::Subtitle>>(raw), rated);
		d = show(sub::collect<std::deque<sub::Subtitle>>(raw), rated);
	} catch (std::exception& e) {
		c.fail("threw", e.what());
	}
	c.check(a == want, "collection", "gives\n" + a + "instead of\n" + want);
	c.check(b == want && d == want, "container", "another container gives\n" + b + "or\n" + d + "instead of\n" + want);
	for (size_t i = 0; i < raw.size(); ++i) {
		c.check(style(raw[i]) == style(before[i]) && place(raw[i]) == place(before[i]), "argument-changed", "the argument is changed");
	}
	c.compared();
	c.step(p.size());
	c.outcome(mc::hash(a));
}

static void lists(mc::Ctx& c, int max, int froms, int tos, const vector<int>& fades, const vector<int>& poss, bool rates = true)
{
	bool const rated = !rates || !c.pick(2);
	int n = c.pick(max + 1);
	vector<P> p;
	for (int i = 0; i < n; ++i) p.push_back({c.pick(froms), c.pick(tos), c.of(fades), c.of(poss)});
	if (!c.go()) return;
	if (!rated) for (auto& i: p) { i.from &= ~1; i.to &= ~1; }
	check(c, p, rated);
}

/** Long lists in various orders */
static void longer(mc::Ctx& c, int max)
{
	int n = max ? 1 + c.pick(max) : c.of(mc::big_sizes()), kind = c.pick(5), a = 1 + c.pick(4);
	if (!c.go()) return;
	vector<P> p;
	for (int i = 0; i < n; ++i) {
		int k = kind == 0 ? 0 : kind == 1 ? i / a : kind == 2 ? n - i : kind == 3 ? (i * 7) % a : (i * 31) % n;
		p.push_back({2 * (k % 30), 0, 0, (i / a) % 2});
	}
	check(c, p, true);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C11";
	return mc::main(argc, argv, o, {
		{"pairs", 0, -1, [](mc::Ctx& c) { lists(c, 2, 3, 4, {0, 1, 2, 3, 6, 9}, {0, 1, 2, 5, 6}); }},
		{"all-pairs", -1, 0, [](mc::Ctx& c) { lists(c, 2, 5, 4, {0, 1, 2, 3, 6, 9}, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10}); }},
		{"triples", -1, 0, [](mc::Ctx& c) { lists(c, 3, 4, 3, {0, 1, 2}, {0, 1, 2, 5}); }},
		{"times-and-positions", 0, 0, [](mc::Ctx& c) { lists(c, c.thorough() ? 6 : 5, 3, 1, {0}, {0, 1, 2}); }},
		{"times", 0, 0, [](mc::Ctx& c) { lists(c, c.thorough() ? 6 : 5, 4, c.thorough() ? 3 : 2, {0}, {0}, false); }},
		{"fades", 0, 0, [](mc::Ctx& c) { lists(c, c.thorough() ? 6 : 5, 1, 2, c.thorough() ? vector<int>{0, 1, 2, 3, 6, 9} : vector<int>{0, 1, 2, 9}, {1}, false); }},
		{"positions", 0, 0, [](mc::Ctx& c) { lists(c, c.thorough() ? 6 : 5, 1, 1, {0}, {0, 1, 2, 3, 5, 6, 8, 9, 10}, false); }},
		{"orders", 0, 0, [](mc::Ctx& c) { lists(c, c.thorough() ? 8 : 6, 6, 1, {0}, {0}, false); }},
		{"long", 0, 0, [](mc::Ctx& c) { longer(c, c.thorough() ? 600 : 120); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { longer(c, 0); }},
	}, "all pairs of pieces over 3 start times, 4 end times, 6 fades and 5 positions (thorough: 11 positions, and triples); all of up to 5 (6) over smaller sets; all of up to 6 (8) over 6 start times; long lists; with and without frame rates and with equal instants at different rates; in three containers",
	{"either all times or none have a frame rate"});
}
