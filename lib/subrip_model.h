/* Reference model of the SubRip format: a cue is (times, lines of text); what a line means is worked out
 * character by character from the list of tags in property C01.
 */
#ifndef VERIF_SUBRIP_MODEL_H
#define VERIF_SUBRIP_MODEL_H

#include "piece.h"
#include <map>

namespace srt {

/* The font tags that are used, with their colours */
struct Font { string tag; RGB colour; };

inline RGB rgb8(int r, int g, int b) { RGB c; c.r = r / 255.0; c.g = g / 255.0; c.b = b / 255.0; return c; }

inline const vector<Font>& fonts()
{
	static const vector<Font> f = {
		{"<font color=\"#ff0000\">", rgb8(255, 0, 0)},
		{"<font color=\"#0000ff\">", rgb8(0, 0, 255)},
		{"<font color='#00FF7f'>", rgb8(0, 255, 127)},
		{"<Font color=#102030>", rgb8(16, 32, 48)},
		{"<FONT color=\"#0a141e80\">", rgb8(10, 20, 30)},
		{"<font face=\"Arial\" color=\"#ffff00\">", rgb8(255, 255, 0)},
		{"<font color=\"#00ffff\" size=\"12\">", rgb8(0, 255, 255)},
		{"<font color=\"rgba(255,128,64,15)\">", rgb8(255, 128, 64)},
		{"<font color=\"rgba( 1, 2 , 3 ,4)\">", rgb8(1, 2, 3)},
		{"<font color=\"#ffffff\">", rgb8(255, 255, 255)},
		{"<font color=\"#000000\">", rgb8(0, 0, 0)},
	};
	return f;
}

struct State {
	bool bold = false, italic = false, underline = false;
	RGB colour;
	vector<RGB> stack;
	int href = sub::HORIZONTAL_CENTRE_OF_SCREEN;
	double hpos = 0;
	int vref = sub::TOP_OF_SUBTITLE;
	bool has_vprop = false;
	double vprop = 0;
	double font_size = 0;
};

/** Line of one of the tags that change the state. */
inline bool starts_nocase(const string& s, size_t i, const char* tag)
{
	for (; *tag; ++tag, ++i) {
		if (i >= s.size()) {
			return false;
		}
		char c = s[i];
		if (c >= 'A' && c <= 'Z') {
			c += 32;
		}
		if (c != *tag) {
			return false;
		}
	}
	return true;
}

/** SSA override tags that may appear in SubRip files; body is e.g. i1 */
inline void override_tag(State& st, const string& body)
{
	if (body == "i1" || body == "i0" || body == "i") st.italic = body == "i1";
	else if (body == "b1" || body == "b0") st.bold = body == "b1";
	else if (body == "u1" || body == "u0") st.underline = body == "u1";
	else if (body.size() == 3 && body[0] == 'a' && body[1] == 'n' && body[2] >= '1' && body[2] <= '9') {
		int const n = body[2] - '1';
		int const h[3] = { sub::LEFT_OF_SCREEN, sub::HORIZONTAL_CENTRE_OF_SCREEN, sub::RIGHT_OF_SCREEN };
		int const v[3] = { sub::BOTTOM_OF_SCREEN, sub::VERTICAL_CENTRE_OF_SCREEN, sub::TOP_OF_SCREEN };
		st.href = h[n % 3];
		st.vref = v[n / 3];
		st.hpos = 0;
	} else if (body == "pos(72,144)") {
		st.href = sub::LEFT_OF_SCREEN;
		st.hpos = 0.25;
		st.vref = sub::TOP_OF_SCREEN;
		st.has_vprop = true;
		st.vprop = 0.5;
	} else if (body == "c&H0000FF&") {
		st.colour = rgb8(255, 0, 0);
	} else if (body == "c&H804020&") {
		st.colour = rgb8(0x20, 0x40, 0x80);
	} else if (body == "c") {
		st.colour = RGB();
	} else if (body == "fs36") {
		st.font_size = 36.0 / 288;
	}
}

/** Work out the pieces of one line */
inline void line(const string& in, int number, const MT& from, const MT& to, State& st, vector<Piece>& out)
{
	string t = in;
	for (size_t p; (p = t.find("\xe2\x80\xab")) != string::npos; ) {
		t.erase(p, 3);
	}
	string text;
	auto flush = [&]() {
		if (text.empty()) {
			return;
		}
		Piece p;
		p.text = text;
		p.from = from;
		p.to = to;
		p.bold = st.bold;
		p.italic = st.italic;
		p.underline = st.underline;
		p.colour = st.colour;
		p.href = st.href;
		p.hpos = st.hpos;
		p.vref = st.vref;
		p.has_line = true;
		p.line = number;
		p.has_vprop = st.has_vprop;
		p.vprop = st.vprop;
		if (st.font_size > 0) {
			p.size_kind = 1;
			p.size = st.font_size;
		}
		out.push_back(p);
		text.clear();
	};
	struct Tag { const char* tag; bool State::*what; bool value; };
	static const Tag tags[] = {
		{"<b>", &State::bold, true}, {"{b}", &State::bold, true}, {"</b>", &State::bold, false}, {"{/b}", &State::bold, false},
		{"<i>", &State::italic, true}, {"{i}", &State::italic, true}, {"</i>", &State::italic, false}, {"{/i}", &State::italic, false},
		{"<u>", &State::underline, true}, {"{u}", &State::underline, true}, {"</u>", &State::underline, false}, {"{/u}", &State::underline, false},
	};
	for (size_t i = 0; i < t.size(); ) {
		bool found = false;
		for (auto& g: tags) {
			if (starts_nocase(t, i, g.tag)) {
				flush();
				st.*g.what = g.value;
				i += strlen(g.tag);
				found = true;
				break;
			}
		}
		if (found) {
			continue;
		}
		if (starts_nocase(t, i, "</font>")) {
			flush();
			if (!st.stack.empty()) {
				st.stack.pop_back();
			}
			st.colour = st.stack.empty() ? RGB() : st.stack.back();
			i += 7;
			continue;
		}
		if (starts_nocase(t, i, "<font")) {
			for (auto& f: fonts()) {
				if (t.compare(i, f.tag.size(), f.tag) == 0) {
					flush();
					st.colour = f.colour;
					st.stack.push_back(f.colour);
					i += f.tag.size();
					found = true;
					break;
				}
			}
			if (!found) {
				fprintf(stderr, "model: unknown font tag in %s\n", t.c_str());
				abort();
			}
			continue;
		}
		if (t[i] == '{' && i + 1 < t.size() && t[i + 1] == '\\') {
			flush();
			size_t e = t.find('}', i);
			if (e == string::npos) {
				e = t.size();
			}
			string body = t.substr(i + 2, e - i - 2);
			size_t p = 0;
			while (true) {
				size_t q = body.find('\\', p);
				override_tag(st, body.substr(p, q == string::npos ? q : q - p));
				if (q == string::npos) {
					break;
				}
				p = q + 1;
			}
			i = e + 1;
			continue;
		}
		text += t[i++];
	}
	flush();
}

struct Cue {
	MT from, to;
	vector<string> lines;    // text lines without newlines; a line may contain U+2028
};

inline void cue(const Cue& c, vector<Piece>& out)
{
	State st;
	int n = 0;
	for (auto& l: c.lines) {
		size_t p = 0;
		while (true) {
			size_t q = l.find("\xe2\x80\xa8", p);
			line(l.substr(p, q == string::npos ? q : q - p), n++, c.from, c.to, st, out);
			if (q == string::npos) {
				break;
			}
			p = q + 3;
		}
	}
}

inline string stamp(const MT& t, char sep = ',')
{
	return mc::format("%02d:%02d:%02d%c%03d", t.h, t.m, t.s, sep, t.f);
}

inline MT ms(int h, int m, int s, int f) { MT t; t.h = h; t.m = m; t.s = s; t.f = f; return t; }

/** i'th of a sequence of increasing times */
inline MT nth(int i) { return ms(i / 3600, (i / 60) % 60, i % 60, (i * 37) % 1000); }

inline string write(const vector<Cue>& cues)
{
	string s;
	int n = 1;
	for (auto& c: cues) {
		s += mc::format("%d\n", n++) + stamp(c.from) + " --> " + stamp(c.to) + "\n";
		for (auto& l: c.lines) {
			s += l + "\n";
		}
		s += "\n";
	}
	return s;
}

}

#endif
