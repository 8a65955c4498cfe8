/* ISO 6937 by way of the table in iso6937_oracle.h */
#ifndef VERIF_ISO6937_MODEL_H
#define VERIF_ISO6937_MODEL_H

#include "iso6937_oracle.h"
#include <string>
#include <vector>

namespace iso {

inline int composed(int mark, int letter)
{
	for (auto& p: oracle::pairs) {
		if (p.mark == mark && p.letter == letter) {
			return p.unicode;
		}
	}
	return 0;
}

inline bool is_mark(int c) { return c >= 0xc1 && c <= 0xcf; }

/** What bytes mean, up to the first zero */
inline std::wstring decode(const std::string& s)
{
	std::wstring o;
	int mark = 0;
	for (unsigned char c: s) {
		if (!c) {
			break;
		}
		if (is_mark(c)) {
			mark = c;
			continue;
		}
		int u = mark ? composed(mark, c) : 0;
		if (!u) {
			u = oracle::main[c];
		}
		mark = 0;
		if (u) {
			o += (wchar_t) u;
		}
	}
	return o;
}

struct Index {
	std::vector<int> to = std::vector<int>(0x10000, 0);    // unicode -> bytes (mark << 8 | letter), 0 = none
	std::vector<int> mark = std::vector<int>(0x10000, 0);  // combining character -> mark
	Index()
	{
		for (int i = 1; i < 256; ++i) if (oracle::main[i]) to[oracle::main[i]] = i;
		for (auto& p: oracle::pairs) to[p.unicode] = (p.mark << 8) | p.letter;
		for (auto& m: oracle::marks) mark[m.combining] = m.code;
	}
};

inline const Index& index() { static Index const i; return i; }

/** @return true if ISO 6937 has this character */
inline bool representable(int c) { return c > 0 && c < 0x10000 && index().to[c]; }

/** What text becomes when it is put into ISO 6937 and back */
inline std::wstring round_trip(const std::wstring& s)
{
	std::wstring o;
	for (size_t i = 0; i < s.size(); ++i) {
		long c = (long) s[i];
		if (c == 0x201e) c = 0x201c;
		else if (c == 0x2013 || c == 0x2014) c = 0x2015;
		else if (c >= 0x2010 && c <= 0x2012) c = '-';
		else if (c == 0x2032) c = '\'';
		if (c <= 0 || c >= 0x10000) {
			continue;
		}
		if (int m = index().mark[c]) {
			/* goes on the letter just before it */
			if (i > 0 && s[i - 1] < 128) {
				if (int u = composed(m, (int) s[i - 1])) {
					o.back() = (wchar_t) u;
				}
			}
			continue;
		}
		if (representable(c)) {
			o += (wchar_t) c;
		}
	}
	return o;
}

/** One encoding of text all of whose characters are representable */
inline std::string encode(const std::wstring& s)
{
	std::string o;
	for (wchar_t c: s) {
		int b = representable((int) c) ? index().to[c] : 0;
		if (b >> 8) o += (char) (b >> 8);
		if (b) o += (char) b;
	}
	return o;
}

inline std::string utf8(const std::wstring& w)
{
	std::string o;
	for (auto x: w) {
		unsigned long c = (unsigned long) x;
		if (c < 0x80) o += (char) c;
		else if (c < 0x800) { o += (char) (0xc0 | (c >> 6)); o += (char) (0x80 | (c & 63)); }
		else if (c < 0x10000) { o += (char) (0xe0 | (c >> 12)); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); }
		else { o += (char) (0xf0 | (c >> 18)); o += (char) (0x80 | ((c >> 12) & 63)); o += (char) (0x80 | ((c >> 6) & 63)); o += (char) (0x80 | (c & 63)); }
	}
	return o;
}

/** All characters that can be represented, in order */
inline const std::vector<int>& repertoire()
{
	static std::vector<int> r;
	if (r.empty()) {
		for (int c = 1; c < 0x10000; ++c) if (representable(c)) r.push_back(c);
	}
	return r;
}

}

#endif
