/* Binary STL files after EBU Tech 3264-E: builder and independent decoder */
#ifndef VERIF_STL_MODEL_H
#define VERIF_STL_MODEL_H

#include "piece.h"
#include "iso6937_model.h"
#include <map>

namespace stl {

/** The fields of the GSI block, in order, with the number of bytes of each */
struct Field { const char* name; int offset, size; };
static Field const fields[] = {
	{"CPN", 0, 3}, {"DFC", 3, 8}, {"DSC", 11, 1}, {"CCT", 12, 2}, {"LC", 14, 2}, {"OPT", 16, 32}, {"OET", 48, 32}, {"TPT", 80, 32}, {"TET", 112, 32}, {"TN", 144, 32},
	{"TCD", 176, 32}, {"SLR", 208, 16}, {"CD", 224, 6}, {"RD", 230, 6}, {"RN", 236, 2}, {"TNB", 238, 5}, {"TNS", 243, 5}, {"TNG", 248, 3}, {"MNC", 251, 2}, {"MNR", 253, 2},
	{"TCS", 255, 1}, {"TCP", 256, 8}, {"TCF", 264, 8}, {"TND", 272, 1}, {"DSN", 273, 1}, {"CO", 274, 3}, {"PUB", 277, 32}, {"EN", 309, 32}, {"ECD", 341, 32}
};

inline const Field& field(const string& n)
{
	for (auto& f: fields) if (n == f.name) return f;
	abort();
}

struct Gsi {
	std::map<string, string> v = {
		{"CPN", "850"}, {"DFC", "STL25.01"}, {"DSC", "0"}, {"CCT", "00"}, {"LC", "09"}, {"OPT", "The programme"}, {"OET", "An episode"}, {"TPT", "Das Programm"}, {"TET", "Eine Folge"},
		{"TN", "A Translator"}, {"TCD", "translator@example.com"}, {"SLR", "REF12345"}, {"CD", "140131"}, {"RD", "150228"}, {"RN", "07"}, {"TNB", "00000"}, {"TNS", "00000"},
		{"TNG", "001"}, {"MNC", "40"}, {"MNR", "23"}, {"TCS", "1"}, {"TCP", "10000000"}, {"TCF", "10000112"}, {"TND", "1"}, {"DSN", "1"}, {"CO", "GBR"}, {"PUB", "A Publisher"},
		{"EN", "An Editor"}, {"ECD", "editor@example.com"}
	};

	/** value as it is in the file */
	string padded(const string& n) const
	{
		string s = v.at(n);
		s.resize(field(n).size, ' ');
		return s;
	}

	string bytes() const
	{
		string s(1024, ' ');
		for (auto& f: fields) s.replace(f.offset, f.size, padded(f.name));
		return s;
	}
};

struct Tti {
	int sgn = 0, sn = 0, ebn = 0xff, cs = 0;
	MT in = {0, 0, 1, 2, 25}, out = {0, 0, 3, 4, 25};
	int vp = 20, jc = 2, cf = 0;
	string text;

	string bytes() const
	{
		string s;
		auto b = [&](int x) { s += (char) x; };
		b(sgn); b(sn & 255); b(sn >> 8); b(ebn); b(cs);
		b(in.h); b(in.m); b(in.s); b(in.f);
		b(out.h); b(out.m); b(out.s); b(out.f);
		b(vp); b(jc); b(cf);
		string t = text;
		t.resize(112, '\x8f');
		return s + t;
	}
};

inline string file(Gsi g, const vector<Tti>& t)
{
	g.v["TNB"] = mc::format("%05d", (int) t.size());
	string s = g.bytes();
	for (auto& i: t) s += i.bytes();
	return s;
}

inline int rate(const string& dfc)
{
	if (dfc == "STL23.01" || dfc == "STL24.01") return 24;
	return dfc == "STL30.01" ? 30 : 25;
}

/** One subtitle with its text fields put together */
struct Joined {
	MT in, out;
	int vp, jc;
	string text;
};

inline vector<Joined> join(const vector<Tti>& t)
{
	vector<Joined> o;
	bool more = false;
	int sn = -1;
	for (auto& i: t) {
		if (i.cf || i.ebn == 0xfe) {
			continue;
		}
		string x = i.text.substr(0, i.text.find('\x8f'));
		if (more && i.sn == sn) {
			o.back().text += x;
		} else {
			o.push_back({i.in, i.out, i.vp, i.jc, x});
		}
		sn = i.sn;
		more = i.ebn != 0xff;
	}
	return o;
}

/** What a reader should make of some subtitles */
inline vector<Piece> decode(const vector<Joined>& subs, int mnr)
{
	static RGB const colours[8] = {{0, 0, 0}, {1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {0, 0, 1}, {1, 0, 1}, {0, 1, 1}, {1, 1, 1}};
	if (mnr == 99) {
		mnr = 12;
	}
	vector<Piece> o;
	int highest = 0;
	for (auto& s: subs) {
		bool italic = false, underline = false;
		RGB colour;
		int row = s.vp;
		string run;
		auto flush = [&]() {
			Piece p;
			p.text = iso::utf8(iso::decode(run));
			run = "";
			p.from = s.in;
			p.to = s.out;
			p.italic = italic;
			p.underline = underline;
			p.colour = colour;
			p.href = s.jc == 1 ? sub::LEFT_OF_SCREEN : s.jc == 3 ? sub::RIGHT_OF_SCREEN : sub::HORIZONTAL_CENTRE_OF_SCREEN;
			p.vref = sub::TOP_OF_SCREEN;
			p.has_line = p.has_lines = true;
			p.line = row;
			p.lines = mnr;
			if (!p.text.empty()) o.push_back(p);
		};
		highest = std::max(highest, row);
		for (unsigned char c: s.text) {
			if (c == 0x8a) {
				flush();
				++row;
				highest = std::max(highest, row);
				colour = RGB();
			} else if (c <= 7) {
				flush();
				colour = colours[c];
			} else if (c >= 0x80 && c <= 0x83) {
				flush();
				(c & 2 ? underline : italic) = !(c & 1);
			} else {
				run += (char) c;
			}
		}
		flush();
	}
	if (highest > mnr) {
		for (auto& p: o) p.line -= highest - mnr;
	}
	return o;
}

/** Join neighbouring pieces which differ in nothing but their text */
inline vector<Piece> merged(const vector<Piece>& in)
{
	vector<Piece> o;
	for (auto& p: in) {
		if (p.text.empty()) continue;
		if (!o.empty()) {
			Piece q = o.back();
			q.text = p.text;
			if (show_piece(q) == show_piece(p)) {
				o.back().text += p.text;
				continue;
			}
		}
		o.push_back(p);
	}
	return o;
}

inline vector<sub::RawSubtitle> merged(const vector<sub::RawSubtitle>& in)
{
	vector<sub::RawSubtitle> o;
	for (auto& p: in) {
		if (p.text.empty()) continue;
		if (!o.empty()) {
			sub::RawSubtitle q = o.back();
			q.text = p.text;
			if (show_raw(q) == show_raw(p) && q.from == p.from && q.to == p.to) {
				o.back().text += p.text;
				continue;
			}
		}
		o.push_back(p);
	}
	return o;
}

}

#endif
