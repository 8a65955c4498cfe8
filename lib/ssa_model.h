/* Reference model of SSA/ASS: what a dialogue event with a given style and margins means. */
#ifndef VERIF_SSA_MODEL_H
#define VERIF_SSA_MODEL_H

#include "subrip_model.h"

namespace ssa {

using srt::rgb8;
using srt::ms;

struct Style {
	bool defined = false;      // false: nothing known, built-in defaults
	string name = "Default";
	string font = "Arial";
	int size = 20;
	RGB primary;
	RGB back = rgb8(0, 0, 0);
	bool bold = false, italic = false, underline = false;
	bool shadow = true;
	int alignment = 2;
	int l = 0, r = 0, v = 0;
};

struct Screen { int x = 288, y = 288; };

struct Event {
	MT from, to;
	int l = 0, r = 0, v = 0;
	string text;
};

inline int href_of(int alignment)
{
	static const int h[3] = { sub::LEFT_OF_SCREEN, sub::HORIZONTAL_CENTRE_OF_SCREEN, sub::RIGHT_OF_SCREEN };
	return h[(alignment - 1) % 3];
}

inline int vref_of(int alignment)
{
	static const int v[3] = { sub::BOTTOM_OF_SCREEN, sub::VERTICAL_CENTRE_OF_SCREEN, sub::TOP_OF_SCREEN };
	return v[(alignment - 1) / 3];
}

inline double horizontal(int href, int l, int r, const Screen& s)
{
	return href == sub::LEFT_OF_SCREEN ? double(l) / s.x : href == sub::RIGHT_OF_SCREEN ? double(r) / s.x : double(l - r) / (2.0 * s.x);
}

/** Work out the pieces of an event */
inline void event(const Event& e, const Style& st, const Screen& screen, vector<Piece>& out)
{
	int const l = e.l ? e.l : st.l, r = e.r ? e.r : st.r, v = e.v ? e.v : st.v;
	Piece p;
	p.from = e.from;
	p.to = e.to;
	double size = 72.0 / screen.y;
	int alignment = 2;
	if (st.defined) {
		p.has_font = true;
		p.font = st.font;
		size = double(st.size) / screen.y;
		p.colour = st.primary;
		p.has_effect_colour = true;
		p.effect_colour = st.back;
		p.bold = st.bold;
		p.italic = st.italic;
		p.underline = st.underline;
		if (st.shadow) {
			p.effect = sub::SHADOW;
		}
		alignment = st.alignment;
	}
	p.size_kind = 1;
	p.size = size;
	p.href = href_of(alignment);
	p.hpos = horizontal(p.href, l, r, screen);
	p.vref = vref_of(alignment);
	p.has_vprop = true;

	double const line = size * 1.2;
	int breaks = 0;
	struct Pos { int line; bool pos; double y; };
	vector<Pos> where;
	vector<Piece> pieces;
	bool has_pos = false;
	double pos_y = 0;
	auto flush = [&]() {
		if (!p.text.empty()) {
			pieces.push_back(p);
			where.push_back({breaks, has_pos, pos_y});
			p.text.clear();
		}
	};
	const string& t = e.text;
	for (size_t i = 0; i < t.size(); ) {
		if (t[i] == '{') {
			size_t q = t.find('}', i);
			if (q == string::npos) {
				q = t.size();
			}
			string body = t.substr(i + 1, q - i - 1);
			i = q + 1;
			flush();
			/* tags; anything before the first backslash is a comment */
			size_t b = body.find('\\');
			while (b != string::npos) {
				size_t n = body.find('\\', b + 1);
				string tag = body.substr(b + 1, n == string::npos ? n : n - b - 1);
				b = n;
				double x[3];
				double size_;
				unsigned rgb;
				char a;
				int len = -1;
				int const tl = tag.size();
				if (tag == "i1") p.italic = true;
				else if (tag == "i0") p.italic = false;
				else if (tag == "b1") p.bold = true;
				else if (tag == "b0") p.bold = false;
				else if (tag == "u1") p.underline = true;
				else if (tag == "u0") p.underline = false;
				else if (tag == "c") p.colour = st.defined ? st.primary : RGB();
				else if (tl == 3 && sscanf(tag.c_str(), "an%c%n", &a, &len) == 1 && a >= '1' && a <= '9') {
					p.href = href_of(a - '0');
					p.vref = vref_of(a - '0');
					p.hpos = horizontal(p.href, l, r, screen);
				} else if (sscanf(tag.c_str(), "c&H%x&%n", &rgb, &len) == 1 && len == tl) {
					p.colour = rgb8(rgb & 255, (rgb >> 8) & 255, (rgb >> 16) & 255);
				} else if (sscanf(tag.c_str(), "fs%lf%n", &size_, &len) == 1 && len == tl) {
					p.size = size_ / screen.y;
				} else if (sscanf(tag.c_str(), "pos(%lf,%lf)%n", &x[0], &x[1], &len) == 2 && len == tl) {
					p.href = sub::LEFT_OF_SCREEN;
					p.hpos = x[0] / screen.x;
					p.vref = sub::TOP_OF_SCREEN;
					has_pos = true;
					pos_y = x[1] / screen.y;
				}
			}
		} else if (t[i] == '\\' && i + 1 < t.size() && (t[i + 1] == 'n' || t[i + 1] == 'N')) {
			flush();
			++breaks;
			i += 2;
		} else if (t[i] == '\\' && i + 1 < t.size() && t[i + 1] == 'h') {
			p.text += "\xc2\xa0";
			i += 2;
		} else {
			p.text += t[i++];
		}
	}
	flush();

	double const margin = double(v) / screen.y;
	for (size_t i = 0; i < pieces.size(); ++i) {
		Piece& q = pieces[i];
		int const n = where[i].line;
		if (where[i].pos) {
			q.vprop = where[i].y;
		} else if (q.vref == sub::TOP_OF_SCREEN) {
			q.vprop = margin + n * line;
		} else if (q.vref == sub::BOTTOM_OF_SCREEN) {
			q.vprop = margin + (breaks - n) * line;
		} else {
			q.vprop = n * line - (breaks + 1) * line / 2;
		}
		out.push_back(q);
	}
}

inline string stamp(const MT& t) { return mc::format("%d:%02d:%02d.%02d", t.h, t.m, t.s, t.f / 10); }
inline MT cs(int h, int m, int s, int c) { return ms(h, m, s, c * 10); }
inline MT nth(int i) { return cs(i / 3600, (i / 60) % 60, i % 60, (i * 37) % 100); }
inline string hex(const RGB& c) { return mc::format("%02X%02X%02X", (int) lrint(c.b * 255), (int) lrint(c.g * 255), (int) lrint(c.r * 255)); }

/** Value of a field of a style; unknown fields have plausible values */
inline string field(const Style& s, const string& n)
{
	if (n == "Name") return s.name;
	if (n == "Fontname") return s.font;
	if (n == "Fontsize") return mc::format("%d", s.size);
	if (n == "PrimaryColour") return "&H00" + hex(s.primary);
	if (n == "BackColour") return "&H" + hex(s.back);
	if (n == "SecondaryColour") return "&H0300FFFF";
	if (n == "OutlineColour" || n == "TertiaryColour") return "&H00112233";
	if (n == "Bold") return s.bold ? "-1" : "0";
	if (n == "Italic") return s.italic ? "-1" : "0";
	if (n == "Underline") return s.underline ? "-1" : "0";
	if (n == "StrikeOut") return "-1";
	if (n == "ScaleX" || n == "ScaleY") return "100";
	if (n == "BorderStyle") return s.shadow ? "1" : "3";
	if (n == "Outline" || n == "Shadow") return "2";
	if (n == "Alignment") return mc::format("%d", s.alignment);
	if (n == "MarginL") return mc::format("%d", s.l);
	if (n == "MarginR") return mc::format("%d", s.r);
	if (n == "MarginV") return mc::format("%d", s.v);
	if (n == "Encoding") return "1";
	return "7";
}

inline string join(const vector<string>& v, const string& sep)
{
	string s;
	for (size_t i = 0; i < v.size(); ++i) {
		s += (i ? sep : "") + v[i];
	}
	return s;
}

inline string style_line(const Style& s, const vector<string>& format)
{
	vector<string> v;
	for (auto& f: format) {
		v.push_back(field(s, f));
	}
	return "Style: " + join(v, ",") + "\n";
}

inline string event_line(const Event& e, const string& style, const vector<string>& format, const string& type = "Dialogue")
{
	vector<string> v;
	for (auto& f: format) {
		if (f == "Start") v.push_back(stamp(e.from));
		else if (f == "End") v.push_back(stamp(e.to));
		else if (f == "Style") v.push_back(style);
		else if (f == "MarginL") v.push_back(mc::format("%d", e.l));
		else if (f == "MarginR") v.push_back(mc::format("%04d", e.r));
		else if (f == "MarginV") v.push_back(mc::format("%d", e.v));
		else if (f == "Text") v.push_back(e.text);
		else if (f == "Name") v.push_back("");
		else v.push_back("0");
	}
	return type + ": " + join(v, ",") + "\n";
}

inline const vector<string>& style_format()
{
	static const vector<string> f = {"Name", "Fontname", "Fontsize", "PrimaryColour", "SecondaryColour", "OutlineColour", "BackColour", "Bold", "Italic", "Underline", "StrikeOut",
		"ScaleX", "ScaleY", "Spacing", "Angle", "BorderStyle", "Outline", "Shadow", "Alignment", "MarginL", "MarginR", "MarginV", "Encoding"};
	return f;
}

inline const vector<string>& event_format()
{
	static const vector<string> f = {"Layer", "Start", "End", "Style", "Name", "MarginL", "MarginR", "MarginV", "Effect", "Text"};
	return f;
}

inline string info(const Screen& s)
{
	return mc::format("[Script Info]\nScriptType: v4.00+\nPlayResX: %d\nPlayResY: %d\n\n", s.x, s.y);
}

}

#endif
