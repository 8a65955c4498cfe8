/* Plain description of what a reader should produce, and comparison with what it does produce.
 * Uses only the library's public interface.
 */
#ifndef VERIF_PIECE_H
#define VERIF_PIECE_H

#include "mc.h"
#include "raw_subtitle.h"
#include "subtitle.h"
#include "exceptions.h"
#include <cmath>
#include <string>
#include <vector>

using std::string;
using std::vector;

/** A time: h:m:s plus f units of 1/rate; rate 0 means that no rate is known */
struct MT {
	int h = 0, m = 0, s = 0, f = 0, rate = 1000;
};

inline bool time_is(const sub::Time& t, const MT& e)
{
	if (t.hours() != e.h || t.minutes() != e.m || t.seconds() != e.s) {
		return false;
	}
	if (e.rate == 0) {
		try {
			return t == sub::Time::from_hmsf(e.h, e.m, e.s, e.f);
		} catch (std::exception&) {
			return false;
		}
	}
	try {
		return t.frames_at(sub::Rational(e.rate, 1)) == e.f && t.frames_at(sub::Rational(e.rate * 8, 1)) == e.f * 8;
	} catch (std::exception&) {
		return false;
	}
}

inline string show_time(const sub::Time& t)
{
	string s = mc::format("%d:%d:%d", t.hours(), t.minutes(), t.seconds());
	try {
		s += mc::format(".%03d", t.milliseconds());
	} catch (std::exception&) {
		int f = 0;
		for (; f < 2000; ++f) {
			if (t == sub::Time::from_hmsf(t.hours(), t.minutes(), t.seconds(), f)) {
				break;
			}
		}
		s += mc::format(":%d", f);
	}
	return s;
}

inline string show_time(const MT& t)
{
	return t.rate == 1000 ? mc::format("%d:%d:%d.%03d", t.h, t.m, t.s, t.f) : mc::format("%d:%d:%d:%d@%d", t.h, t.m, t.s, t.f, t.rate);
}

struct RGB {
	double r = 1, g = 1, b = 1;
};

inline bool near(double a, double b) { return std::fabs(a - b) < 2e-5; }
inline bool colour_is(const sub::Colour& c, const RGB& e) { return near(c.r, e.r) && near(c.g, e.g) && near(c.b, e.b); }

struct Piece {
	string text;
	MT from, to;
	bool bold = false, italic = false, underline = false;
	RGB colour;
	bool has_font = false;
	string font;
	int size_kind = 0;       // 0 unspecified, 1 proportional, 2 points
	double size = 0;
	int effect = -1;         // -1 none or sub::Effect
	bool has_effect_colour = false;
	RGB effect_colour;
	int href = sub::HORIZONTAL_CENTRE_OF_SCREEN;
	double hpos = 0;
	int vref = -1;           // -1 unset
	bool has_vprop = false;
	double vprop = 0;
	bool has_line = false;
	int line = 0;
	bool has_lines = false;
	int lines = 0;
};

inline string show_piece(const Piece& p)
{
	string s = "\"" + mc::show(p.text) + "\" " + show_time(p.from) + "->" + show_time(p.to);
	s += mc::format(" %s%s%s colour=%.4f,%.4f,%.4f", p.bold ? "B" : "", p.italic ? "I" : "", p.underline ? "U" : "", p.colour.r, p.colour.g, p.colour.b);
	if (p.has_font) s += " font=" + p.font;
	if (p.size_kind) s += mc::format(" size=%g%s", p.size, p.size_kind == 1 ? "prop" : "pt");
	if (p.effect >= 0) s += mc::format(" effect=%d", p.effect);
	if (p.has_effect_colour) s += mc::format(" effcol=%.4f,%.4f,%.4f", p.effect_colour.r, p.effect_colour.g, p.effect_colour.b);
	s += mc::format(" h=%d:%.5f v=%d", p.href, p.hpos, p.vref);
	if (p.has_vprop) s += mc::format(":%.5f", p.vprop);
	if (p.has_line) s += mc::format(" line=%d", p.line);
	if (p.has_lines) s += mc::format("/%d", p.lines);
	return s;
}

inline string show_raw(const sub::RawSubtitle& p)
{
	string s = "\"" + mc::show(p.text) + "\" " + show_time(p.from) + "->" + show_time(p.to);
	s += mc::format(" %s%s%s colour=%.4f,%.4f,%.4f", p.bold ? "B" : "", p.italic ? "I" : "", p.underline ? "U" : "", p.colour.r, p.colour.g, p.colour.b);
	if (p.font) s += " font=" + *p.font;
	if (p.font_size.proportional()) s += mc::format(" size=%gprop", *p.font_size.proportional());
	if (p.font_size.points()) s += mc::format(" size=%dpt", *p.font_size.points());
	if (p.effect) s += mc::format(" effect=%d", (int) *p.effect);
	if (p.effect_colour) s += mc::format(" effcol=%.4f,%.4f,%.4f", p.effect_colour->r, p.effect_colour->g, p.effect_colour->b);
	s += mc::format(" h=%d:%.5f v=%d", p.horizontal_position.reference, p.horizontal_position.proportional, p.vertical_position.reference ? (int) *p.vertical_position.reference : -1);
	if (p.vertical_position.proportional) s += mc::format(":%.5f", *p.vertical_position.proportional);
	if (p.vertical_position.line) s += mc::format(" line=%d", *p.vertical_position.line);
	if (p.vertical_position.lines) s += mc::format("/%d", *p.vertical_position.lines);
	return s;
}

/** @return name of the first thing that differs, or "" */
inline string differs(const Piece& e, const sub::RawSubtitle& g)
{
	if (e.text != g.text) return "text";
	if (!time_is(g.from, e.from)) return "from";
	if (!time_is(g.to, e.to)) return "to";
	if (e.bold != g.bold) return "bold";
	if (e.italic != g.italic) return "italic";
	if (e.underline != g.underline) return "underline";
	if (!colour_is(g.colour, e.colour)) return "colour";
	if (e.has_font != bool(g.font) || (e.has_font && e.font != *g.font)) return "font";
	if ((e.size_kind == 1) != bool(g.font_size.proportional())) return "font-size";
	if ((e.size_kind == 2) != bool(g.font_size.points())) return "font-size";
	if (e.size_kind == 1 && !near(*g.font_size.proportional(), e.size)) return "font-size";
	if (e.size_kind == 2 && *g.font_size.points() != e.size) return "font-size";
	if ((e.effect >= 0) != bool(g.effect) || (e.effect >= 0 && e.effect != *g.effect)) return "effect";
	if (e.has_effect_colour != bool(g.effect_colour) || (e.has_effect_colour && !colour_is(*g.effect_colour, e.effect_colour))) return "effect-colour";
	if (e.href != g.horizontal_position.reference) return "horizontal-reference";
	if (!near(e.hpos, g.horizontal_position.proportional)) return "horizontal-position";
	auto const& v = g.vertical_position;
	if ((e.vref >= 0) != bool(v.reference) || (e.vref >= 0 && e.vref != *v.reference)) return "vertical-reference";
	if (e.has_vprop != bool(v.proportional) || (e.has_vprop && !near(e.vprop, *v.proportional))) return "vertical-position";
	if (e.has_line != bool(v.line) || (e.has_line && e.line != *v.line)) return "line";
	if (e.has_lines != bool(v.lines) || (e.has_lines && e.lines != *v.lines)) return "lines";
	if (g.fade_up || g.fade_down) return "fade";
	return "";
}

/** Fail unless the pieces got are exactly those expected.
 *  Pieces with no text are ignored on both sides: they are invisible.
 */
inline void compare_pieces(mc::Ctx& c, const vector<Piece>& want_, const vector<sub::RawSubtitle>& got_)
{
	vector<Piece> want;
	vector<sub::RawSubtitle> got;
	for (auto& p: want_) if (!p.text.empty()) want.push_back(p);
	for (auto& p: got_) if (!p.text.empty()) got.push_back(p);
	size_t n = std::min(want.size(), got.size());
	string what;
	size_t i = 0;
	uint64_t h = want.size();
	for (; i < n && what.empty(); ++i) {
		what = differs(want[i], got[i]);
		h = mc::mix(h, mc::hash(want[i].text));
	}
	if (what.empty() && want.size() != got.size()) {
		what = "number-of-pieces";
	}
	if (!what.empty()) {
		string m = "wrong " + what + mc::format(" (piece %zu)\nexpected:\n", i);
		for (auto& p: want) m += "  " + show_piece(p) + "\n";
		m += "got:\n";
		for (auto& p: got) m += "  " + show_raw(p) + "\n";
		c.fail(what, m);
	}
	c.step(n ? n : 1);
	c.outcome(h);
	c.compared();
}

#endif
