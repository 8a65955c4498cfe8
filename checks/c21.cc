/* C21: positions, sizes, colours and equality */
#include "mc.h"
#include "exceptions.h"
#include "raw_subtitle.h"
#include "subtitle.h"
#include <cmath>
#include <set>

using std::string;
using std::vector;

static const vector<double> props = {0, 0.05, 0.1, 0.25, 0.5, 0.75, 0.9, 1, 0.101, -0.25, 1.5};

/* A vertical position; -1 (or -100 for a line) is unset */
struct V { int ref, prop, line, lines; };

static sub::VerticalPosition make(const V& v)
{
	sub::VerticalPosition p;
	if (v.ref >= 0) p.reference = (sub::VerticalReference) v.ref;
	if (v.prop >= 0) p.proportional = (float) props[v.prop];
	if (v.line > -100) p.line = v.line;
	if (v.lines >= 0) p.lines = v.lines;
	return p;
}

static string show(const V& v)
{
	return (v.prop >= 0 ? mc::format("%g ", props[v.prop]) : string()) + (v.line > -100 ? mc::format("line %d ", v.line) : string()) + (v.lines >= 0 ? mc::format("of %d ", v.lines) : string()) +
		(v.ref >= 0 ? mc::format("ref %d", v.ref) : string("no ref"));
}

/** distance from top, or NAN if it is not known */
static double top(const V& v)
{
	if (v.ref < 0) return NAN;
	double p;
	if (v.prop >= 0) p = props[v.prop];
	else if (v.line > -100 && v.lines >= 0) p = double(v.line) / v.lines;
	else return NAN;
	return v.ref == sub::VERTICAL_CENTRE_OF_SCREEN ? p + 0.5 : v.ref == sub::BOTTOM_OF_SCREEN ? 1 - p : p;
}

static V pick(mc::Ctx& c)
{
	V v = {c.pick(5) - 1, -1, -100, -1};
	if (c.pick(2)) {
		v.prop = c.pick(props.size() + 1) - 1;
	} else {
		static const vector<int> l = {-100, 0, 1, 2, 3, 10, 22, 23, 24, -3}, n = {-1, 1, 2, 10, 23, 24, 100};
		v.line = c.of(l);
		v.lines = c.of(n);
	}
	return v;
}

static const vector<V>& all()
{
	static vector<V> v;
	if (v.empty()) {
		for (int r = -1; r < 4; ++r) {
			for (int p = -1; p < (int) props.size(); ++p) v.push_back({r, p, -100, -1});
			/* in both terms, as a place given to a numbered line */
			for (int p = 0; p < (int) props.size(); ++p) for (int l: {0, 1, 23, -3}) for (int n: {-1, 1, 24}) v.push_back({r, p, l, n});
			for (int l: {0, 1, 2, 3, 10, 22, 23, 24, -3}) for (int n: {-1, 1, 2, 10, 23, 24, 100}) v.push_back({r, -1, l, n});
		}
	}
	return v;
}

static void vertical(mc::Ctx& c)
{
	V v = pick(c);
	if (!c.go()) return;
	c.input(show(v));
	double const want = top(v), got = make(v).fraction_from_screen_top();
	c.check(std::isnan(want) ? got == 0 : fabs(got - want) < 1e-5, "fraction-from-top", mc::format("%.7f instead of %.7f", got, want));
	c.compared();
	c.step();
	c.state(mc::hash(show(v)));
	c.outcome(mc::hash_bytes(&got, sizeof(got)));
}

static void vertical_pairs(mc::Ctx& c)
{
	int i = c.pick(all().size());
	if (!c.go()) return;
	V const a = all()[i];
	for (auto& b: all()) {
		c.input(show(a) + " and " + show(b));
		auto x = make(a), y = make(b);
		double const ta = std::isnan(top(a)) ? 0 : top(a), tb = std::isnan(top(b)) ? 0 : top(b);
		if (fabs(ta - tb) > 1e-5 || (a.ref == b.ref && a.prop == b.prop && a.line == b.line && a.lines == b.lines)) {
			c.check((x < y) == (ta < tb - 1e-6), "order", mc::format("< gives %d for %g and %g", x < y, ta, tb));
		}
		bool const known_a = a.ref >= 0 && (a.prop >= 0 || a.line > -100), known_b = b.ref >= 0 && (b.prop >= 0 || b.line > -100);
		/* whether line 1 of 10 is the same as line 1 of an unknown number is left open */
		bool open = known_a && known_b && a.prop < 0 && b.prop < 0 && (a.lines < 0) != (b.lines < 0);
		/* and so is whether the terms are the same if only one has a proportion as well as a line, or if proportions and lines are the same but numbers of lines are not */
		if (a.ref == b.ref && a.line > -100 && a.line == b.line) {
			if ((a.prop < 0) != (b.prop < 0) && (a.lines < 0 || b.lines < 0 || a.lines == b.lines)) open = true;
			if (a.prop >= 0 && a.prop == b.prop && a.lines != b.lines) open = true;
		}
		if (!open) {
			bool const want = known_a && known_b && a.ref == b.ref && a.prop == b.prop && a.line == b.line && a.lines == b.lines;
			c.check((x == y) == want, "vertical-equality", mc::format("== gives %d", x == y));
		}
		c.check((x == y) == (y == x), "symmetry", "== is not symmetric");
		c.compared();
		c.step(2);
	}
	c.state(i);
}

static void horizontal(mc::Ctx& c)
{
	int ra = c.pick(3), rb = c.pick(3), base = c.pick(5), k = c.pick(81);
	if (!c.go()) return;
	static const double at[] = {0, 0.25, 0.5, 0.9, -0.3};
	sub::HorizontalPosition a, b;
	a.reference = (sub::HorizontalReference) ra;
	b.reference = (sub::HorizontalReference) rb;
	/* in eighths of a pixel at 2K */
	double const d = (k - 40) / 8.0;
	a.proportional = at[base];
	b.proportional = at[base] + d / 1998;
	c.input(mc::format("references %d and %d, %g pixels apart at %g", ra, rb, d, at[base]));
	c.compared();
	c.step();
	c.state(mc::mix(ra * 3 + rb, base * 1000 + k));
	if (fabs(fabs(d) - 1) < 0.01) return;
	bool const want = ra == rb && fabs(d) < 1;
	c.check((a == b) == want && (b == a) == want, "horizontal-equality", mc::format("== gives %d", a == b));
	c.outcome(want);
}

static void sizes(mc::Ctx& c)
{
	int h = 1 + c.pick(1200);
	if (!c.go()) return;
	for (int p = 0; p < 300; ++p) {
		c.input(mc::format("%d points on %d", p, h));
		auto a = sub::FontSize::from_points(p);
		c.check(a.specified() && a.points() && *a.points() == p && !a.proportional() && a.points(h) == p, "points", "wrong number of points");
		float const q = a.proportional(h);
		c.check(fabs(q - double(p) / h) < 1e-6 * (1 + double(p) / h), "proportional", mc::format("proportion is %g", q));
		auto b = sub::FontSize::from_proportional(q);
		c.check(b.specified() && b.proportional() && *b.proportional() == q && !b.points() && b.proportional(h) == q, "proportional-kept", "wrong proportion");
		c.check(b.points(h) == p, "points-and-back", mc::format("gives %d points", b.points(h)));
		auto d = sub::FontSize::from_proportional(p / 299.0f);
		c.check(fabs(d.points(h) - double(p) / 299 * h) < 0.501, "to-points", mc::format("%g gives %d points", p / 299.0, d.points(h)));
		c.check(a == sub::FontSize::from_points(p) && b == sub::FontSize::from_proportional(q), "size-equality", "a size is not equal to itself");
		c.check(!(a == b) && !(a == sub::FontSize::from_points(p + 1)) && !(b == sub::FontSize::from_proportional(q + 0.5f)) && !(a == sub::FontSize()), "size-inequality", "different sizes are equal");
		c.compared();
		c.step(6);
		c.state(h * 1000 + p);
	}
	c.check(!sub::FontSize().specified(), "unspecified", "a default size is specified");
}

/** Every value of every two channels */
static void colours(mc::Ctx& c)
{
	int kind = c.pick(2), channel = c.pick(3), v = c.pick(256);
	if (!c.go()) return;
	for (int other = 0; other < 256; ++other) {
		for (int third: {0, 1, 127, 255}) {
			for (int upper = 0; upper < 2; ++upper) {
				int x[3];
				x[channel] = v;
				x[(channel + 1) % 3] = other;
				x[(channel + 2) % 3] = third;
				string s = mc::format(upper ? "%02X%02X%02X" : "%02x%02x%02x", x[0], x[1], x[2]);
				if (kind == 1) s += mc::format("%02x", (v + other) % 256);
				c.input(s);
				sub::Colour k;
				try {
					k = kind == 0 ? sub::Colour::from_rgb_hex(s) : sub::Colour::from_rgba_hex(s);
				} catch (std::exception& e) {
					c.fail("colour-rejected", e.what());
				}
				c.check(fabs(k.r - x[0] / 255.0) < 1e-6 && fabs(k.g - x[1] / 255.0) < 1e-6 && fabs(k.b - x[2] / 255.0) < 1e-6, "colour", mc::format("gives %g, %g, %g", k.r, k.g, k.b));
				sub::Colour const l(k.r, k.g, k.b);
				c.check(k == l, "colour-equality", "a colour is not equal to itself");
				for (int i = 0; i < 3; ++i) {
					sub::Colour m = k;
					(i == 0 ? m.r : i == 1 ? m.g : m.b) += 1 / 255.0f;
					c.check(!(k == m) && !(m == k), "colour-inequality", "different colours are equal");
				}
				c.compared();
				c.step(2);
			}
		}
	}
	c.state(mc::mix(kind, channel * 1000 + v));
}

static void bad_colours(mc::Ctx& c)
{
	static const vector<string> bad = {"", "1", "12", "123", "1234", "g00000", "00g000", "0000g0", "zzzzzz", "#000000"}, bad8 = {"", "123456", "zz000000", "000000zz"};
	int kind = c.pick(2), i = c.pick((kind ? bad8 : bad).size());
	if (!c.go()) return;
	string const s = (kind ? bad8 : bad)[i];
	c.input(s);
	c.compared();
	c.step();
	c.state(mc::hash(s));
	try {
		if (kind) sub::Colour::from_rgba_hex(s); else sub::Colour::from_rgb_hex(s);
	} catch (std::exception&) {
		return;
	}
	c.fail("bad-colour", "is accepted");
}

/** Names */
static void names(mc::Ctx& c)
{
	int which = c.pick(2), n = c.pick(9);
	if (!c.go()) return;
	static const char* const v[2][9] = {{"none", "border", "shadow", "", "None", "borde", "borderr", " border", "centre"}, {"top", "center", "bottom", "", "Top", "to", "tops", "centre", "middle"}};
	string const s = v[which][n];
	c.input(s);
	c.compared();
	c.step();
	c.state(which * 10 + n);
	try {
		if (which == 0) {
			auto e = sub::string_to_effect(s);
			c.check(n < 3 && (n == 0 ? !e : bool(e) && *e == (n == 1 ? sub::BORDER : sub::SHADOW)), "effect", "wrong effect");
		} else {
			auto e = sub::string_to_vertical_reference(s);
			c.check(n < 3 && e == (n == 0 ? sub::TOP_OF_SCREEN : n == 1 ? sub::VERTICAL_CENTRE_OF_SCREEN : sub::BOTTOM_OF_SCREEN), "reference", "wrong reference");
		}
	} catch (mc::Failure&) {
		throw;
	} catch (std::exception& e) {
		c.check(n >= 3, "name-rejected", e.what());
	}
}

/* Equality of blocks, lines and subtitles */

static sub::RawSubtitle piece(const vector<int>& k)
{
	sub::RawSubtitle r;
	static const vector<string> texts = {"text", "Text", ""};
	r.text = texts[k[0]];
	if (k[1]) r.font = k[1] == 1 ? "Arial" : "Times";
	if (k[2] == 1) r.font_size.set_points(42);
	if (k[2] == 2) r.font_size.set_points(43);
	if (k[2] == 3) r.font_size.set_proportional(0.5f);
	/* both */
	if (k[2] >= 4) {
		r.font_size.set_points(k[2] == 5 ? 43 : 42);
		r.font_size.set_proportional(k[2] == 6 ? 0.6f : 0.5f);
	}
	if (k[3]) r.effect = k[3] == 1 ? sub::BORDER : sub::SHADOW;
	if (k[4]) r.effect_colour = sub::Colour(k[4] == 1, k[4] == 2, 0);
	r.colour = sub::Colour(k[5] == 1 ? 0.5 : 1, k[5] == 2 ? 0.5 : 1, k[5] == 3 ? 0.5 : 1);
	r.bold = k[6];
	r.italic = k[7];
	r.underline = k[8];
	r.horizontal_position.reference = (sub::HorizontalReference) k[9];
	/* the last is within a pixel of the first */
	r.horizontal_position.proportional = k[10] == 3 ? 0.0002f : k[10] * 0.25f;
	r.vertical_position.reference = (sub::VerticalReference) k[11];
	if (k[12] < 3) {
		r.vertical_position.proportional = 0.1f + k[12] * 0.2f;
	} else {
		r.vertical_position.line = k[12] == 4 ? 3 : 2;
		r.vertical_position.lines = k[12] == 5 ? 11 : 10;
	}
	auto t = [](int s) { return sub::Time::from_hmsf(0, 0, s, 3, sub::Rational(25, 1)); };
	r.from = t(1 + k[13]);
	r.to = t(5 + k[14]);
	if (k[15]) r.fade_up = t(10 + k[15]);
	if (k[16]) r.fade_down = t(10 + k[16]);
	return r;
}

static int const sizes_of[17] = {3, 3, 7, 3, 3, 4, 2, 2, 2, 3, 4, 4, 6, 3, 3, 3, 3};

static void equality(mc::Ctx& c)
{
	vector<int> a(17), b;
	/* one starts from a base, both differ from it in some components */
	for (int i = 0; i < 17; ++i) a[i] = c.dev(sizes_of[i]);
	b = a;
	int where = c.pick(18), to = where < 17 ? c.pick(sizes_of[where]) : 0;
	if (where < 17) b[where] = to;
	int shape = c.pick(4);
	if (!c.go()) return;
	string in;
	for (int i: a) in += mc::format("%d", i);
	in += " ";
	for (int i: b) in += mc::format("%d", i);
	c.input(in + mc::format(" shape %d", shape));
	auto pa = piece(a), pb = piece(b);
	for (auto k: {&a, &b}) {
		if ((*k)[10] == 3) (*k)[10] = 0;
	}
	auto same = [&](int from, int n) { return vector<int>(a.begin() + from, a.begin() + from + n) == vector<int>(b.begin() + from, b.begin() + from + n); };
	bool const eb = same(0, 9), el = eb && same(9, 4), es = el && same(13, 4);
	c.check((sub::Block(pa) == sub::Block(pb)) == eb, "block-equality", "wrong");
	sub::Line la(pa), lb(pb);
	sub::Subtitle sa(pa), sb(pb);
	bool extra = false;
	if (shape == 1) lb.blocks.push_back(sub::Block(pb)), extra = true;
	if (shape == 2) lb.blocks.clear(), extra = true;
	if (shape == 3) { sub::RawSubtitle x; x.text = "next"; la.blocks.push_back(sub::Block(x)); lb.blocks.push_back(sub::Block(x)); }
	c.check((la == lb) == (el && !extra), "line-equality", "wrong");
	if (shape == 1) sb.lines.push_back(lb);
	if (shape == 2) sb.lines.clear();
	if (shape == 3) sa.lines.insert(sa.lines.begin(), sa.lines[0]), sb.lines.insert(sb.lines.begin(), sb.lines[0]);
	c.check((sa == sb) == (es && !extra), "subtitle-equality", "wrong");
	c.check(sub::Subtitle(pa).same_metadata(pb) == same(13, 4), "subtitle-same-metadata", "wrong");
	c.check(sub::Line(pa).same_metadata(pb) == same(11, 2), "line-same-metadata", "wrong");
	c.compared();
	c.step(5);
	c.state(mc::hash(in, shape));
	c.outcome(eb * 4 + el * 2 + es);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C21";
	return mc::main(argc, argv, o, {
		{"vertical", 0, 0, vertical},
		{"vertical-pairs", 0, 0, vertical_pairs},
		{"horizontal", 0, 0, horizontal},
		{"sizes", 0, 0, sizes},
		{"colours", 0, 0, colours},
		{"bad-colours", 0, 0, bad_colours},
		{"names", 0, 0, names},
		{"equality", 2, 4, equality},
	}, "all vertical positions (each with and without a reference, proportion, line and number of lines, in all combinations) and all pairs of them; horizontal positions in steps of 1/8 pixel; all sizes of up to 300 points on screens of up to 1200; all values of each two channels of a colour; names; all pairs of pieces which differ in one component, from every base with up to 2 (thorough 4) components changed",
	{"whether a line of an unknown number of lines equals the same line of a known number is left open"});
}
