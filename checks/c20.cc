/* C20: errors in SubRip and WebVTT files.  A document is a list of lines; a model which knows only the
 * structure of the formats says which line is wrong, what may be said about it and which lines are the
 * context.
 */
#include "source.h"
#include <set>

using namespace src;

/** What may be said about a bad line */
struct Want {
	bool error = false;
	bool unclear = false;              // not stated whether this is an error
	int line = 0;                      // one-based
	struct Saying { string saw; string expecting; };
	vector<Saying> sayings;            // any of these
	vector<string> context;
};

static vector<string> split(const string& s, const string& seps, bool compress)
{
	vector<string> o(1);
	bool last = false;
	for (char c: s) {
		if (seps.find(c) != string::npos) {
			if (!compress || !last) o.push_back("");
			last = true;
		} else {
			o.back() += c;
			last = false;
		}
	}
	return o;
}

/** How good an integer is: 0 bad, 1 good, 2 not stated */
static int integer(const string& s)
{
	size_t i = 0;
	bool sign = false;
	if (i < s.size() && (s[i] == '+' || s[i] == '-')) { ++i; sign = true; }
	if (i == s.size()) return 0;
	for (size_t j = i; j < s.size(); ++j) if (s[j] < '0' || s[j] > '9') return 0;
	while (i + 1 < s.size() && s[i] == '0') ++i;
	if (s.size() - i > 10 || (s.size() - i == 10 && s.compare(i, 10, "2147483647") > 0)) return 0;
	return sign ? 2 : 1;
}

/** Look at a time; false if it is bad or might be */
static bool time_ok(const string& t, char sep, Want& w)
{
	auto a = split(t, ":", false);
	if (a.size() != 3) {
		w.error = true;
		w.sayings = {{t, "time in the format"}};
		return false;
	}
	auto b = split(a[2], string(1, sep), false);
	if (b.size() != 2) {
		w.error = true;
		w.sayings = {{t, "time in the format"}};
		return false;
	}
	string const parts[] = {a[0], a[1], b[0], b[1]};
	static char const* const names[] = {"hour", "minute", "second", "millisecond"};
	bool maybe = false, large = false;
	for (int i = 0; i < 4; ++i) {
		int const k = integer(parts[i]);
		if (k == 0) {
			w.error = true;
			w.sayings.push_back({t, string("integer ") + names[i]});
		}
		if (k == 2) maybe = true;
		if (k == 1 && (parts[i].size() > 4 || (i && i < 3 && atoi(parts[i].c_str()) > 59) || (i == 3 && atoi(parts[i].c_str()) > 999))) large = true;
	}
	if (w.error) return false;
	if (maybe || large) {
		w.unclear = true;
		w.sayings = {{t, "integer"}, {t, "large"}};
		return false;
	}
	return true;
}

/** Look at the font tags in a line of SubRip text */
static bool text_ok(const string& l, Want& w)
{
	for (size_t i = 0; (i = l.find('<', i)) != string::npos; ++i) {
		string low;
		for (size_t j = i; j < l.size(); ++j) low += tolower(l[j]);
		if (low.compare(0, 5, "<font")) continue;
		size_t e = l.find('>', i);
		string const tag = l.substr(i + 5, e == string::npos ? e : e - i - 5);
		bool good = false, maybe = false;
		static vector<string> const goods = {" color=\"#ff0000\"", " color=#ff0000", " color='#ff000080'", " color=\"rgba(1,2,3,4)\"", " color=\"rgba( 1, 22 ,3 , 4 )\"", " face=\"x\" color=\"#00ff00\"", " color=\"#00ff00\" size=\"1\""};
		static vector<string> const bads = {" color=\"red\"", " color=\"#ff\"", " color=\"#ff00000\"", " color=\"#ff0000000\"", " color=\"#gg0000\"", " color=\"rgba(1,2,3)\"", " color=\"rgba(1,2,x,4)\"", " color=x", " color=", " color=\"#\"", " color=\"rgba(1,2,3,4\"", " color=\"rgba()\""};
		good = std::find(goods.begin(), goods.end(), tag) != goods.end();
		maybe = !good && std::find(bads.begin(), bads.end(), tag) == bads.end();
		if (good) continue;
		if (maybe) w.unclear = true; else w.error = true;
		w.sayings = {{tag, "colour"}};
		return false;
	}
	return true;
}

static string trimmed(string s)
{
	while (!s.empty() && s.back() == ' ') s.pop_back();
	return s;
}

static Want model(Kind k, const vector<string>& lines)
{
	Want w;
	enum { OUT, META, TEXT, NOTE, HEADER } state = k == VTT ? HEADER : OUT;
	char const sep = k == VTT ? '.' : ',';
	for (size_t i = 0; i < lines.size(); ++i) {
		string l = lines[i];
		while (!l.empty() && (l.back() == '\r' || l.back() == '\n')) l.pop_back();
		if (l.compare(0, 3, "\xef\xbb\xbf") == 0) l = l.substr(3);
		w.context.push_back(l);
		if (w.context.size() > 5) w.context.erase(w.context.begin());
		w.line = i + 1;
		bool more = false;
		auto time_line = [&]() {
			string const t = trimmed(l);
			auto p = split(t, " ", true);
			bool const good = k == VTT ? p.size() >= 3 : p.size() == 3 || p.size() == 7;
			if (!good) {
				w.error = true;
				w.sayings = {{t, "a time"}};
				more = true;
				return;
			}
			if (time_ok(p[0], sep, w) || w.unclear) {
				Want second;
				time_ok(p[2], sep, second);
				if (w.unclear) w.error = false; else w.error = second.error;
				w.unclear = w.unclear || second.unclear;
				w.sayings.insert(w.sayings.end(), second.sayings.begin(), second.sayings.end());
				if (w.unclear && second.error) { w.error = true; w.unclear = false; }
			}
		};
		switch (state) {
		case HEADER:
			state = OUT;
			break;
		case OUT:
			if (k == SUBRIP) {
				if (!l.empty()) state = META;
			} else if (l == "NOTE" || l.compare(0, 5, "NOTE ") == 0 || l.compare(0, 5, "NOTE\t") == 0) {
				state = NOTE;
			} else if (l.find("-->") != string::npos) {
				time_line();
				state = TEXT;
			}
			break;
		case META:
			time_line();
			state = TEXT;
			break;
		case TEXT:
			if (l.empty()) state = OUT;
			else if (k == SUBRIP) {
				auto p = l;
				size_t q;
				while ((q = p.find("\xe2\x80\xa8")) != string::npos) {
					if (!text_ok(p.substr(0, q), w)) break;
					p = p.substr(q + 3);
				}
				if (!w.error && !w.unclear) text_ok(p, w);
			}
			break;
		case NOTE:
			if (l.empty()) state = OUT;
			break;
		}
		if (w.error || w.unclear) {
			for (size_t j = i + 1; more && j < lines.size() && j < i + 3; ++j) {
				string x = lines[j];
				while (!x.empty() && (x.back() == '\r' || x.back() == '\n')) x.pop_back();
				w.context.push_back(x);
			}
			return w;
		}
	}
	return w;
}

/** end: how lines end; how: 0 string, 1 FILE, 2 FILE read one byte at a time */
static void run(mc::Ctx& c, Kind k, vector<string> lines, int end = 0, int how = 0)
{
	/* A last line which is empty and has no end is not there at all */
	if (end == 2 && !lines.empty() && lines.back().empty()) { lines.pop_back(); end = 0; }
	string d;
	for (size_t i = 0; i < lines.size(); ++i) {
		d += lines[i];
		if (i + 1 < lines.size() || end != 2) d += end == 1 ? "\r\n" : "\n";
	}
	c.input(string(kind_names[k]) + (how ? " from a FILE: " : ": ") + d);
	Want const w = model(k, lines);
	bool error = false;
	string what, type;
	vector<string> context;
	int line = w.line;
	auto go = [&]() {
		if (how == 0) { from_string(k, d); return; }
		Feed f;
		f.data = d;
		if (how == 2) { f.chunks.sizes = {1}; f.chunks.buffer = 0; }
		FILE* s = src::open(f);
		struct Close { FILE* f; ~Close() { fclose(f); } } close{s};
		from_file(k, s);
	};
	try {
		go();
	} catch (sub::SubripError& e) {
		error = true;
		what = e.what();
		auto x = e.context();
		context.assign(x.begin(), x.end());
		line = e.line_number();
		type = "SubripError";
	} catch (sub::WebVTTHeaderError& e) {
		error = true;
		what = e.what();
		type = "WebVTTHeaderError";
	} catch (sub::WebVTTError& e) {
		error = true;
		what = e.what();
		auto x = e.context();
		context.assign(x.begin(), x.end());
		type = "WebVTTError";
	} catch (std::exception& e) {
		error = true;
		what = e.what();
		type = "another exception";
	}
	c.step(lines.size());
	c.state(mc::hash(mc::format("%d %d %d", w.error, w.line, (int) w.context.size()) + (w.sayings.empty() ? "" : w.sayings[0].saw + w.sayings[0].expecting)));
	if (!w.unclear) {
		c.check(error == w.error, error ? "well-formed" : "accepted", error ? "a well-formed file was rejected: " + what : mc::format("line %d was not rejected", w.line));
	}
	c.compared();
	c.outcome(mc::hash(type + what));
	if (!error) return;
	c.check(type == (k == VTT ? "WebVTTError" : "SubripError"), "type", "the error is " + type + ": " + what);
	c.check(line == w.line, "line", mc::format("the error says line %d, not %d", line, w.line));
	if (k == SUBRIP) c.check(what.find(mc::format("line %d:", w.line)) != string::npos, "line in message", what + mc::format(" does not say line %d", w.line));
	bool said = false;
	for (auto& s: w.sayings) {
		size_t const p = what.find("saw " + (s.saw.empty() ? string("an empty string") : s.saw) + " when expecting ");
		if (p == string::npos) continue;
		/* milli-second is not second */
		if (what.find(s.expecting, p + 5 + s.saw.size() + 10) != string::npos) said = true;
	}
	string list;
	for (auto& s: w.sayings) list += "\n " + s.saw + " / " + s.expecting;
	c.check(said, "message", "the message is \"" + what + "\" but it should say one of (what was seen / what was expected):" + list);
	auto show = [](const vector<string>& v) { string s; for (auto& i: v) s += "\n | " + i; return s; };
	c.check(context == w.context, "context", "the context is" + show(context) + "\nrather than" + show(w.context));
}

static vector<string> const& alphabet(Kind k)
{
	static vector<string> const subrip = {"", "1", "00:00:01,000 --> 00:00:02,000", "0:0:1,0 --> x", "a", "<font color=\"red\">b", "<font color=\"#ff0000\">c\xe2\x80\xa8<font color=\"#ff\">d", "-->", "0:0:1,0 --> 0:0:2,0 X1:1 X2:2 Y1:3 Y2:4  "};
	static vector<string> const vtt = {"", "1", "00:00:01.000 --> 00:00:02.000", "0:0:1.0 --> x", "a", "NOTE", "-->", "0:0:1.0 --> 0:0:2.0 a:b c  ", "<font color=\"red\">b"};
	return k == VTT ? vtt : subrip;
}

/** Every sequence of lines */
static void sequences(mc::Ctx& c, int max)
{
	Kind const k = c.pick(2) ? VTT : SUBRIP;
	auto& a = alphabet(k);
	vector<string> l;
	if (k == VTT) l.push_back("WEBVTT");
	int const n = c.pick(max + 1);
	for (int i = 0; i < n; ++i) l.push_back(c.of(a));
	if (!c.go()) return;
	run(c, k, l);
}

/** An error after any number of lines of any kind, followed by any number of lines, in every line end and source */
static void positions(mc::Ctx& c)
{
	Kind const k = c.pick(2) ? VTT : SUBRIP;
	int const before = c.pick(c.thorough() ? 12 : 8);
	vector<int> sizes;
	for (int i = 0; i < before; ++i) sizes.push_back(i < 3 ? c.pick(3) : i % 3);
	int const gap = c.pick(3), kind = c.pick(8), after = c.pick(4), end = c.pick(3), how = c.pick(3), bom = c.pick(2);
	if (!c.go()) return;
	string const sep = k == VTT ? "." : ",";
	vector<string> l;
	if (k == VTT) { l.push_back("WEBVTT"); l.push_back(""); }
	int n = 0;
	auto good = [&]() { return mc::format("00:%02d:%02d%s000 --> 00:%02d:%02d%s500", n / 60, n % 60, sep.c_str(), n / 60, n % 60, sep.c_str()); };
	for (int s: sizes) {
		l.push_back(mc::format("%d", ++n));
		l.push_back(good());
		for (int i = 0; i < s; ++i) l.push_back(mc::format("text %d.%d <b>x", n, i));
		l.push_back("");
	}
	for (int i = 0; i < gap; ++i) l.push_back("");
	l.push_back(mc::format("%d", ++n));
	string const t = "00:00:01" + sep + "000", a = " --> ";
	switch (kind) {
	case 0: l.push_back("x" + a + t); break;
	case 1: l.push_back(t + a + "0:x:0" + sep + "0"); break;
	case 2: l.push_back(t + " -->  "); break;
	case 3: l.push_back(k == VTT ? "-->" : ""); break;
	case 4: l.push_back(k == VTT ? "bad-->bad" : "a b"); break;
	case 5: l.push_back(t + a + t + "y"); l.push_back("z"); break;
	case 6: l.push_back(t + a + t); l.push_back("a <font color=\"red\">b</font>"); break;
	case 7: l.push_back(t + a + t); l.push_back("first"); l.push_back("<b>second</b><font color=\"#1\">b\xe2\x80\xa8" "c"); break;
	}
	for (int i = 0; i < after; ++i) l.push_back(i == 1 ? "" : mc::format("after %d", i));
	if (bom) l[0] = "\xef\xbb\xbf" + l[0];
	run(c, k, l, end, how);
}

/** Every sequence of tokens as a time */
static void times(mc::Ctx& c, int max)
{
	Kind const k = c.pick(2) ? VTT : SUBRIP;
	static vector<string> const a = {":", "1", ",", ".", "x", "-", "59"};
	int const which = c.pick(2);
	int const n = c.pick(max + 1);
	string t;
	for (int i = 0; i < n; ++i) t += c.of(a);
	if (!c.go()) return;
	string const good = k == VTT ? "00:00:01.000" : "00:00:01,000";
	vector<string> l;
	if (k == VTT) l = {"WEBVTT", ""};
	l.push_back("1");
	l.push_back((which ? good : t) + " --> " + (which ? t : good));
	l.push_back("z");
	run(c, k, l);
}

/** Every part of a time replaced with every one of a list of numbers, two at once */
static void numbers(mc::Ctx& c)
{
	Kind const k = c.pick(2) ? VTT : SUBRIP;
	static vector<string> const n = {"", "0", "00", "7", "59", "x", "7x", "x7", "1e3", "0x1", "+1", "-1", "--1", "+", "\t1", "1\t", "99999999999", "2147483647", "2147483648", "0000000000000001", "1.", "1_", "\xd9\xa1", "1\xc2\xa0", "\xc2\xa0" "1", "60", "99", "596523", "600000", "1'0", "I"};
	int const at = c.pick(8);
	string const v = c.of(n);
	int const at2 = c.pick(8);
	string const v2 = c.of(n);
	if (!c.go()) return;
	if (at2 < at || (at2 == at && v2 != v)) return;
	string p[8] = {"00", "00", "01", "000", "00", "00", "02", "000"};
	p[at] = v;
	p[at2] = v2;
	string const s = k == VTT ? "." : ",";
	string const t = p[0] + ":" + p[1] + ":" + p[2] + s + p[3] + " --> " + p[4] + ":" + p[5] + ":" + p[6] + s + p[7];
	vector<string> l;
	if (k == VTT) l = {"WEBVTT", ""};
	l.push_back("1");
	l.push_back(t);
	l.push_back("z");
	run(c, k, l);
}

/** Every sequence of words as a time line */
static void time_lines(mc::Ctx& c)
{
	Kind const k = c.pick(2) ? VTT : SUBRIP;
	string const good = k == VTT ? "0:0:1.000" : "0:0:1,000";
	static vector<string> const words = {"T", "-->", "x", "line:1", "--", "%1", "when"};
	static vector<string> const spaces = {" ", "  ", "\t"};
	int const n = c.pick(9);
	vector<string> w;
	for (int i = 0; i < n; ++i) w.push_back(i < 3 ? c.of(words) : words[c.pick(2) * 3]);
	int const space = c.dev(3), odd = n > 1 ? c.dev(n - 1) : 0, start = c.dev(2), end = c.dev(3), after = c.dev(3);
	if (!c.go()) return;
	string t = start ? " " : "";
	for (int i = 0; i < n; ++i) t += (w[i] == "T" ? good : w[i]) + (i + 1 < n ? (i == odd ? spaces[space] : " ") : "");
	t += string(end, ' ');
	vector<string> l;
	if (k == VTT) l = {"WEBVTT", ""};
	l.push_back("1");
	l.push_back(t);
	for (int i = 0; i < after; ++i) l.push_back("z");
	run(c, k, l);
}

/** Font tags: every pair of them in every layout */
static void colours(mc::Ctx& c)
{
	static vector<string> const tags = {
		" color=\"#ff0000\"", " color=#ff0000", " color='#ff000080'", " color=\"rgba(1,2,3,4)\"", " color=\"rgba( 1, 22 ,3 , 4 )\"", " face=\"x\" color=\"#00ff00\"", " color=\"#00ff00\" size=\"1\"",
		" color=\"red\"", " color=\"#ff\"", " color=\"#ff00000\"", " color=\"#ff0000000\"", " color=\"#gg0000\"", " color=\"rgba(1,2,3)\"", " color=\"rgba(1,2,x,4)\"", " color=x", " color=", " color=\"#\"", " color=\"rgba(1,2,3,4\"", " color=\"rgba()\"",
		"", " ", " face=\"x\"",
	};
	static vector<string> const layouts = {"<fontA>x<fontB>y", "<FONTA>x</font><fontB>", "a<b><fontA>\xe2\x80\xa8<fontB>z", "<fontA>\n<fontB>", "{\\i1}<fontA>p\nq\nr\xe2\x80\xa8\xe2\x80\xa8<FontB>", "<i>x</i>\n<fontA>\n\n2\n00:00:03,000 --> 00:00:04,000\n<fontB>", "q<fontA>r<fontB"};
	auto& a = c.of(tags);
	auto& b = c.of(tags);
	auto& y = c.of(layouts);
	int const after = c.pick(4), end = c.pick(3);
	if (!c.go()) return;
	vector<string> l = {"1", "00:00:01,000 --> 00:00:02,000", ""};
	for (char ch: y) {
		if (ch == 'A') l.back() += a;
		else if (ch == 'B') l.back() += b;
		else if (ch == '\n') l.push_back("");
		else l.back() += ch;
	}
	for (int i = 0; i < after; ++i) l.push_back("more");
	run(c, SUBRIP, l, end);
}

/** Long files and lines */
/** @param max number of sizes from 0, or 0 for sizes around the limits of counters */
static void lengths(mc::Ctx& c, int max)
{
	Kind const k = c.pick(2) ? VTT : SUBRIP;
	int const kind = c.pick(4);
	int const n = max ? c.pick(max) : c.of(mc::big_sizes());
	if (!c.go()) return;
	string const good = k == VTT ? "0:0:1.000 --> 0:0:2.000" : "0:0:1,000 --> 0:0:2,000";
	vector<string> l;
	if (k == VTT) l = {"WEBVTT", ""};
	switch (kind) {
	case 0:
		for (int i = 0; i < n; ++i) { l.push_back("1"); l.push_back(good); if (i % 2) l.push_back("x"); l.push_back(""); }
		l.push_back("1");
		l.push_back("x --> y");
		break;
	case 1:
		for (int i = 0; i < n; ++i) l.push_back("");
		l.push_back("1");
		l.push_back("a-->b");
		l.push_back("after");
		break;
	case 2:
		l.push_back("1");
		l.push_back(good);
		for (int i = 0; i < n; ++i) l.push_back(mc::format("line %d", i));
		l.push_back("");
		l.push_back("2");
		l.push_back(good + "x");
		break;
	case 3:
		l.push_back("1");
		l.push_back(string(n, 'x') + "-->" + string(n, 'y'));
		l.push_back(string(n, 'z'));
		break;
	}
	run(c, k, l, 0, n % 3);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C20";
	return mc::main(argc, argv, o, {
		{"positions", 0, 0, positions},
		{"sequences", 0, -1, [](mc::Ctx& c) { sequences(c, 5); }},
		{"sequences-7", -1, 0, [](mc::Ctx& c) { sequences(c, 7); }},
		{"times", 0, -1, [](mc::Ctx& c) { times(c, 6); }},
		{"times-8", -1, 0, [](mc::Ctx& c) { times(c, 8); }},
		{"numbers", 0, 0, numbers},
		{"time-lines", 2, 5, time_lines},
		{"colours", 0, 0, colours},
		{"lengths", 0, 0, [](mc::Ctx& c) { lengths(c, c.thorough() ? 3000 : 600); }},
		{"sizes", 0, 0, [](mc::Ctx& c) { lengths(c, 0); }},
	}, "every sequence of lines from the alphabets in checks/c20.cc up to the length given; an error of 8 kinds after 0 to 7 (thorough 11) cues of all shapes with 0 to 3 lines after it, in 3 kinds of line end and 3 sources; every sequence of 7 time tokens as either time; every pair of 31 numbers in the 8 parts of a time line; every sequence of words as a time line; every pair of 22 font tags in 7 layouts; files and lines of every length up to 600 (3000); type, line number, message and context of each error are compared with the model's",
	{"signs, out-of-range minutes and values of five or more digits may be accepted or not", "a font tag with no colour may be accepted or not"});
}
