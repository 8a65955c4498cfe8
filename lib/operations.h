/* Things that a program may do with the library: each is deterministic, and gives a complete description of what came of it */
#ifndef VERIF_OPERATIONS_H
#define VERIF_OPERATIONS_H

#include "source.h"
#include "stl_writer_model.h"
#include "collect.h"
#include "iso6937.h"
#include "locale_convert.h"
#include "raw_convert.h"
#include "reader_factory.h"
#include "stl_util.h"
#include "subtitle.h"
#include "util.h"
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <list>

namespace op {

using namespace src;

/** What came of an operation, and a way to describe again what it left behind */
struct Held {
	string result;
	std::function<string ()> again;
};

struct Op {
	string name;
	/** @param who a number which is different for each of the threads which may do this at once */
	std::function<Held (int who)> run;
	/** true if it may print warnings */
	bool prints = false;
};

/** Something whose value is a string and which leaves nothing behind */
inline Op value(const string& name, const std::function<string ()>& f)
{
	return {name, [f](int) { return Held{outcome(f), {}}; }};
}

/** Something which makes a T, described by show */
template <class T> Op object(const string& name, const std::function<T (int)>& make, const std::function<string (const T&)>& show)
{
	return {name, [make, show](int who) {
		std::shared_ptr<T> t;
		Held h;
		h.result = outcome([&]() {
			t = std::make_shared<T>(make(who));
			return show(*t);
		});
		if (t) h.again = [t, show]() { return show(*t); };
		return h;
	}};
}

typedef std::shared_ptr<sub::Reader> R;

inline string show_fields(const sub::STLBinaryReader& b)
{
	return mc::format("%d %.9g %d %d %d %d %d %d %d %d %d %d %d ", b.code_page_number, b.frame_rate, b.display_standard, b.language_group, b.language, b.tti_blocks, b.number_of_subtitles,
		b.subtitle_groups, b.maximum_characters, b.maximum_rows, b.timecode_status, b.disks, b.disk_sequence_number)
		+ b.original_programme_title + b.original_episode_title + b.translated_programme_title + b.translated_episode_title + b.translator_name + b.translator_contact_details
		+ b.subtitle_list_reference_code + b.creation_date + b.revision_date + b.revision_number + b.start_of_programme + b.first_in_cue + b.country_of_origin + b.publisher + b.editor_name + b.editor_contact_details + "\n";
}

inline string show_r(const R& r)
{
	if (!r) return "nothing";
	auto b = dynamic_cast<const sub::STLBinaryReader*>(r.get());
	return string(typeid(*r).name()) + "\n" + (b ? show_fields(*b) : "") + show_reader(*r);
}

inline string show_subtitle(const sub::Subtitle& s)
{
	string o = show_any(s.from) + "->" + show_any(s.to) + " fade " + (s.fade_up ? show_any(*s.fade_up) : "-") + "/" + (s.fade_down ? show_any(*s.fade_down) : "-") + "\n";
	for (auto& l: s.lines) {
		o += " line\n";
		for (auto& b: l.blocks) {
			/* describe it like a piece */
			sub::RawSubtitle r;
			r.text = b.text; r.font = b.font; r.font_size = b.font_size; r.effect = b.effect; r.effect_colour = b.effect_colour; r.colour = b.colour;
			r.bold = b.bold; r.italic = b.italic; r.underline = b.underline;
			r.horizontal_position = l.horizontal_position; r.vertical_position = l.vertical_position;
			o += "  " + show_all(r);
		}
	}
	return o;
}

template <class T> string show_list(const T& l)
{
	string o = mc::format("%d subtitles\n", (int) l.size());
	for (auto& i: l) o += show_subtitle(i);
	return o;
}

inline Op reading(const string& name, Kind k, const string& doc)
{
	Op o = object<R>(string(kind_names[k]) + ": " + name, [k, doc](int) { return from_string(k, doc); }, show_r);
	o.prints = k == STL_TEXT;
	return o;
}

inline void put(const string& path, const string& data)
{
	int const f = ::open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
	if (f < 0 || ::write(f, data.data(), data.size()) != (ssize_t) data.size()) { perror(path.c_str()); abort(); }
	close(f);
}

/** @param n name relative to a directory of its own */
inline string path(int who, const string& n) { return mc::format("w%d.", who) + n; }

inline Op opening(const string& name, const string& ext, const string& doc)
{
	Op o = object<R>("open " + name, [ext, doc](int who) {
		string const p = path(who, "opened" + ext);
		put(p, doc);
		return sub::reader_factory(p);
	}, show_r);
	o.prints = ext == ".stl";
	return o;
}

inline Op writing(const string& name, const std::function<vector<sub::Subtitle> ()>& make, const wr::Meta& m, const string& file = "written.stl")
{
	return {"write " + name, [=](int who) {
		Held h;
		auto s = std::make_shared<vector<sub::Subtitle>>();
		string const p = path(who, file[0] == '/' ? "link.stl" : file);
		if (file[0] == '/') {
			/* never give the name of anything outside the scratch directory: it may be replaced */
			unlink(p.c_str());
			if (symlink(file.c_str(), p.c_str())) { perror(p.c_str()); abort(); }
		}
		string const o = outcome([&]() { *s = make(); wr::write(*s, m, p); return string("written\n"); });
		h.result = show_list(*s) + o + (o == "written\n" && file[0] != '/' ? wr::slurp(p) : "");
		h.again = [=]() { return show_list(*s); };
		return h;
	}};
}

inline sub::RawSubtitle piece(const string& t, int from, int to, int line, bool italic = false)
{
	sub::RawSubtitle r;
	r.text = t;
	r.from = sub::Time::from_hms(0, 0, 0, from);
	r.to = sub::Time::from_hms(0, 0, 0, to);
	r.italic = italic;
	r.vertical_position.line = line;
	r.vertical_position.lines = 20;
	r.vertical_position.reference = sub::TOP_OF_SCREEN;
	return r;
}

inline string const& styles() { static string const s =
	"[Script Info]\nPlayResX: 640\nPlayResY: 480\n[V4+ Styles]\nFormat: Name, Fontname, Fontsize, PrimaryColour, BackColour, Bold, Italic, Underline, BorderStyle, Alignment, MarginL, MarginR, MarginV\n"
	"Style: Default,Arial,20,&H000000FF,&H00FF0000,-1,0,-1,1,7,10,20,30\nStyle: Red,Big,99,&H000000FF,&H00FF0000,0,-1,0,0,3,1,2,3\n[Events]\nFormat: Start, End, Style, MarginL, MarginR, MarginV, Text\n"; return s; }

inline vector<Op> const& all()
{
	static vector<Op> ops;
	if (!ops.empty()) return ops;
	auto add = [&](const Op& o) { ops.push_back(o); };

	string const srt = "1\n00:00:01,000 --> 00:00:02,500\n<i>one</i>\n{\\an8}two<font color=\"#ff0000\">x</font>\n\n2\n00:00:03,000 --> 00:00:04,500\nthree\n";
	string const srt_other = "1\n00:00:01,000 --> 00:00:02,500\n<b>ona</b>\n{\\an7}two<font color=\"#ff0001\">y</font>\n\n2\n00:00:03,000 --> 00:00:04,501\nthred\n";
	add(reading("two cues", SUBRIP, srt));
	add(reading("two other cues", SUBRIP, srt_other));
	add(reading("unclosed tags", SUBRIP, "1\n00:00:01,000 --> 00:00:02,000\n<b><i><u>a\n<font color=\"#00ff00\">b{\\an1\\pos(3,4)\\fs20}c\n"));
	add(reading("plain", SUBRIP, "\xef\xbb\xbf" "1\n00:00:01,000 --> 00:00:02,000\nplain{\\c}x\n</font>\xe2\x80\xa8z"));
	add(reading("a bad time", SUBRIP, "1\n00:00:01,000 --> 00:00:02,000\na\n\n2\n00:00:01,000 --> 00:00:0x,000\nb\nc\n"));
	add(reading("a bad colour", SUBRIP, "7\n00:00:01,000 --> 00:00:02,000\n<i><font color=\"#ff\">a\n"));
	add(reading("no arrow", SUBRIP, "q\nr\ns\nt\n"));
	add(reading("nothing", SUBRIP, ""));

	add(reading("styles", SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,a{\\c&H00FF00&\\i0}b{\\c}c\\Nd\nDialogue: 0:00:03.00,0:00:04.00,Default,5,6,7,e\n"));
	add(reading("no styles", SSA, "[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Red,a{\\c&H00FF00&}b{\\c}c\nDialogue: 0:00:03.00,0:00:04.00,Default,e\n"));
	add(reading("other styles", SSA, "[V4+ Styles]\nFormat: Fontsize, Name, Alignment\nStyle: 30,Red,5\nStyle: 40,Red,6\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Red,a{\\fs12}b\\nc\nDialogue: 0:00:03.00,0:00:04.00,No,e\n"));
	add(reading("unclosed tags", SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,a{\\i1}{\\b1}{\\u1}{\\an9}b{\\pos(1,2)}c{\\fs77\n"));
	add(reading("a trailing backslash", SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,a\\Nb\\\n"));
	add(reading("a bad style", SSA, styles() + "[V4+ Styles]\nStyle: a,b\n"));
	add(reading("a bad time", SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,a\nDialogue: 0:00,0:00:04.00,Default,5,6,7,e\n"));
	add(reading("a bad colour", SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,{\\cRED&}a\n"));
	add(reading("nothing", SSA, ""));

	add(reading("two cues", VTT, "WEBVTT\n\nNOTE hello\nthere\n\n1\n00:00:01.000 --> 00:00:02.500 line:0\na\nb\n\n00:00:03.000 --> 00:00:04.500\nc\xe2\x80\xa8" "d\n"));
	add(reading("two other cues", VTT, "WEBVTT\n\nNOTE hello\nthere\n\n1\n00:00:01.000 --> 00:00:02.501 line:0\na\nB\n\n00:00:03.000 --> 00:00:04.500\nc\xe2\x80\xa8" "e\n"));
	add(reading("an unfinished note", VTT, "WEBVTT x\n\n00:00:01.000 --> 00:00:02.000\na\n\nNOTE\n00:00:01.000 --> 00:00:02.000\n"));
	add(reading("no header", VTT, "1\n00:00:01.000 --> 00:00:02.000\na\n"));
	add(reading("a bad time", VTT, "WEBVTT\n\n00:00:01.000 --> 00:00:02.000\na\n\nx -->\nb\nc\n"));

	add(reading("variables", STL_TEXT, "$FontName=Arial\n$FontSize=12\n$Bold=True\n$Italic=True\n$Underlined=True\n00:00:01:00,00:00:02:12,a|^Ib^I\n"));
	add(reading("plain", STL_TEXT, "//x\n00:00:01:00,00:00:02:12,a|b\n00:00:03:00,00:00:04:12,c\n"));
	add(reading("unclosed toggles", STL_TEXT, "00:00:01:00,00:00:02:12,a|^Bb^Ic^Ud\n00:00:03:00,00:00:04:12,c\n"));
	add(reading("bad lines", STL_TEXT, "what\n$FontSize=x\n$a=b=c\nx,y,z\n1:2:3,4:5:6,7\n00:00:01:00,00:00:02:12,a\n"));

	stl::Gsi g, h, r99, bad;
	h.v["LC"] = "08"; h.v["DFC"] = "STL24.01"; h.v["DSC"] = "1"; h.v["MNR"] = "10"; h.v["OPT"] = "Das Programm"; h.v["TCS"] = "0";
	r99.v["MNR"] = "99"; r99.v["DFC"] = "STL30.01";
	bad.v["DFC"] = "STL99.01";
	auto tti = [](int n, const string& t, int vp = 20) { stl::Tti x; x.sn = n; x.in.m = x.out.m = n; x.text = t; x.vp = vp; return x; };
	string const bin = stl::file(g, {tti(1, "a\x80" "b\x81\x8a" "c\xc2" "e"), tti(2, "d\x01r\x07w")});
	string const bin_other = stl::file(g, {tti(1, "a\x80" "b\x81\x8a" "c\xc3" "e"), tti(2, "d\x01r\x07v")});
	add(reading("English", STL_BINARY, bin));
	add(reading("more English", STL_BINARY, bin_other));
	add(reading("German", STL_BINARY, stl::file(h, {tti(1, "\xc8" "a\xfb\x8a\x8a" "c"), tti(0, "below", 14)})));
	add(reading("99 rows", STL_BINARY, stl::file(r99, {tti(1, "\x80\x82unclosed\x04", 11), tti(2, "x\x8ay", 5)})));
	{ stl::Tti a = tti(5, string(112, 'x')), b = tti(5, "y"), c = tti(5, "note"), d = tti(6, "unfinished"); a.ebn = 0; c.cf = 1; d.ebn = 3; add(reading("extensions", STL_BINARY, stl::file(g, {a, c, b, d}))); }
	add(reading("bad format", STL_BINARY, stl::file(bad, {tti(1, "a")})));
	add(reading("cut short", STL_BINARY, bin.substr(0, 1200)));
	{ stl::Tti a = tti(5, "x"); a.cf = 9; add(reading("bad comment flag", STL_BINARY, stl::file(g, {tti(4, "w"), a}))); }

	add(opening("SubRip", ".srt", srt));
	add(opening("other SubRip of the same name and size", ".srt", srt_other));
	add(opening("text STL", ".stl", "$Bold=True\n00:00:01:00,00:00:02:12,a|^Ib\n"));
	add(opening("binary STL", ".stl", bin));
	add(opening("other binary STL of the same name and size", ".stl", bin_other));
	add(opening("bad SubRip", ".SRT", "1\nx\n"));
	add(opening("something else", ".txt", srt));
	add(object<R>("open what is not there", [](int who) { return sub::reader_factory(path(who, "no/such.stl")); }, show_r));
	add(object<R>("open SubRip which is not there", [](int who) { return sub::reader_factory(path(who, "no/such.srt")); }, show_r));
	for (Kind k: {SUBRIP, SSA, VTT}) add(object<R>(string(kind_names[k]) + " from a FILE", [k, srt](int) {
		Feed f{k == SUBRIP ? srt : k == SSA ? styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,ab" : "WEBVTT\n\n00:00:01.000 --> 00:00:02.500\nfile\n", {}};
		FILE* s = src::open(f);
		std::shared_ptr<FILE> closer(s, fclose);
		return from_file(k, s);
	}, show_r));

	add(object<vector<sub::Subtitle>>("collect three", [](int) { return sub::collect<vector<sub::Subtitle>>({piece("c", 30, 40, 1), piece("a", 10, 20, 1), piece("b", 10, 20, 1, true), piece("d", 30, 40, 2)}); }, show_list<vector<sub::Subtitle>>));
	add(object<std::list<sub::Subtitle>>("collect into a list", [](int) { return sub::collect<std::list<sub::Subtitle>>({piece("c", 30, 41, 1), piece("d", 30, 40, 2)}); }, show_list<std::list<sub::Subtitle>>));
	add(object<vector<sub::Subtitle>>("collect fades", [](int) {
		auto a = piece("a", 10, 20, 1), b = piece("b", 10, 20, 1);
		a.fade_up = a.from;
		b.fade_down = b.to;
		return sub::collect<vector<sub::Subtitle>>({a, b, a});
	}, show_list<vector<sub::Subtitle>>));
	add(value("collect times with and without rates", []() {
		auto a = piece("a", 10, 20, 1), b = piece("b", 10, 20, 1);
		b.from = sub::Time::from_hmsf(0, 0, 0, 10);
		return show_list(sub::collect<vector<sub::Subtitle>>({a, b}));
	}));
	auto dumped = [](Kind k, const string& d) { return [k, d]() { std::ostringstream s; s.imbue(std::locale::classic()); sub::dump(from_string(k, d), s); return s.str(); }; };
	add(value("dump SubRip", dumped(SUBRIP, srt)));
	add(value("dump SSA", dumped(SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,a{\\i1}b\\Nc\n")));
	add(value("dump binary STL", dumped(STL_BINARY, stl::file(h, {tti(1, "\x80\x82" "a\x8a" "b")}))));

	wr::Meta m, french, longt, thirty;
	french.language = sub::LANGUAGE_FRENCH; french.fps = 24; french.opt = "Le programme"; french.co = "FRA"; french.rn = 99; french.pub = "";
	longt.opt = string(33, 'x');
	thirty.fps = 30; thirty.language = sub::LANGUAGE_UNKNOWN;
	auto plain = [](const string& t) { return [t]() { return sub::collect<vector<sub::Subtitle>>({piece(t, 1000, 2000, 3), piece("italic", 1000, 2000, 4, true), piece("next", 3000, 4000, 8)}); }; };
	add(writing("plain", plain("plain"), m));
	add(writing("other plain", plain("pla1n"), m));
	add(writing("diacritics in French", plain("\xc3\xa9\xc3\xa0 e\xcc\x81 \xc5\x93\xe2\x80\x94\xe6\xbc\xa2"), french));
	add(writing("a long one", plain(string(300, 'y')), thirty));
	add(writing("nothing", []() { return vector<sub::Subtitle>(); }, m));
	add(writing("a title which is too long", plain("a"), longt));
	add(writing("times with no rate", []() { auto a = piece("a", 10, 20, 1); a.from = sub::Time::from_hmsf(0, 0, 0, 10); return sub::collect<vector<sub::Subtitle>>({a}); }, m));
	add(writing("text which is too long", plain(string(30000, 'y')), m));
	add(writing("where it cannot", plain("a"), m, "no/where.stl"));
	add(writing("to a full disk", plain("a"), m, "/dev/full"));
	add(object<R>("write and read back", [](int who) {
		string const p = path(who, "back.stl");
		wr::Meta m;
		wr::write(sub::collect<vector<sub::Subtitle>>({piece("b\xc3\xa4" "ck", 1000, 2000, 3)}), m, p);
		return sub::reader_factory(p);
	}, show_r));

	auto from_iso = [](const string& s) { return [s]() { return iso::utf8(sub::iso6937_to_utf16(s)); }; };
	auto to_iso = [](const std::wstring& s) { return [s]() { return sub::utf16_to_iso6937(s); }; };
	string every;
	for (int i = 1; i < 256; ++i) every += (char) i;
	std::wstring all_wide;
	for (int i = 1; i < 0x2200; ++i) if (i < 0x180 || (i >= 0x300 && i < 0x330) || i > 0x2000) all_wide += (wchar_t) i;
	add(value("from ISO 6937", from_iso("abc \xc2" "e\xc8o \xa4")));
	add(value("from ISO 6937 ending with a diacritic", from_iso("ab\xc8")));
	add(value("from ISO 6937 with diacritics which cannot be applied", from_iso("o\xc1\xff\xc9" "a\xcc" "b\xc2\xc3" "e\xcf" "q")));
	add(value("from all of ISO 6937", from_iso(every)));
	add(value("to ISO 6937", to_iso(L"abc \u00e9\u00f6 $")));
	add(value("to ISO 6937 with combining marks", to_iso(L"e\u0301o\u0308q\u0308\u0301")));
	add(value("to ISO 6937 from what it does not have", to_iso(L"\u6f22a\u2014\u201e\u2032\U0001f600")));
	add(value("everything to ISO 6937", to_iso(all_wide)));

	add(value("frame rates", []() {
		string o;
		for (float f: {23.976f, 24.0f, 25.0f, 29.97f, 30.0f, 50.0f}) o += sub::stl_frame_rate_to_dfc(f) + mc::format(" %.6g ", sub::stl_dfc_to_frame_rate(sub::stl_frame_rate_to_dfc(f)));
		return o;
	}));
	add(value("unknown disk format code", []() { return mc::format("%g", sub::stl_dfc_to_frame_rate("STL26.01")); }));
	add(value("tables", []() {
		sub::STLBinaryTables t;
		string o;
		for (int i = sub::LANGUAGE_UNKNOWN; i <= sub::LANGUAGE_AMHARIC; ++i) o += t.language_enum_to_file((sub::Language) i) + t.language_enum_to_description((sub::Language) i) + mc::format("%d ", t.language_file_to_enum(t.language_enum_to_file((sub::Language) i)));
		for (auto c: {"0", "1", "2", " "}) o += outcome([&]() { return t.display_standard_enum_to_description(t.display_standard_file_to_enum(c)); });
		for (int i = 0; i < 5; ++i) o += outcome([&]() { return t.justification_enum_to_description(t.justification_file_to_enum(i)) + t.cumulative_status_enum_to_description(t.cumulative_status_file_to_enum(i)) + t.comment_enum_to_description(t.comment_file_to_enum(i)); });
		auto d = t.language_description_to_enum("Welsh");
		return o + mc::format("%d", d ? (int) *d : -1);
	}));
	add(value("unknown language code", []() { sub::STLBinaryTables t; return mc::format("%d", t.language_file_to_enum("QQ")); }));
	add(value("times", []() {
		auto a = sub::Time::from_hmsf(1, 2, 3, 4, sub::Rational(25, 1)), b = sub::Time::from_hms(0, 59, 59, 999);
		string o = mc::format("%d%d%d%d %d %d %.9g", a < b, a > b, a == b, a != b, a.milliseconds(), b.frames_at(sub::Rational(24, 1)), a.all_as_seconds());
		auto c = a;
		c.add(b);
		c.scale(1.5);
		return o + show_any(a) + show_any(b) + show_any(c) + show_any(sub::Time::from_frames(100, sub::Rational(24, 1)));
	}));
	add(value("times with and without rates", []() { return mc::format("%d", sub::Time::from_hmsf(0, 0, 0, 1) < sub::Time::from_hms(0, 0, 0, 1)); }));
	add(value("scale a time with no rate", []() { auto t = sub::Time::from_hmsf(0, 0, 1, 1); t.scale(2); return show_any(t); }));
	add(value("a time which is too large", []() { return show_any(sub::Time::from_hms(2000000000, 0, 0, 0)); }));
	add(value("colours", []() { auto a = sub::Colour::from_rgb_hex("10Ff7f"), b = sub::Colour::from_rgba_hex("10Ff7f80"); return mc::format("%.7g %.7g %.7g %d", a.r, a.g, a.b, a == b); }));
	add(value("a colour which is not one", []() { return mc::format("%g", sub::Colour::from_rgb_hex("zz").r); }));
	add(value("sizes and positions", []() {
		auto p = sub::FontSize::from_points(12), q = sub::FontSize::from_proportional(0.1);
		sub::VerticalPosition v, w;
		v.reference = w.reference = sub::BOTTOM_OF_SCREEN;
		v.proportional = 0.25;
		w.line = 3;
		w.lines = 10;
		return mc::format("%.7g %d %.7g %d %d %.7g %.7g %d%d", p.proportional(72), p.points(72), q.proportional(72), q.points(72), p == q, v.fraction_from_screen_top(), w.fraction_from_screen_top(), v == w, v < w);
	}));
	add(value("conversions", []() {
		string o = mc::format("%d %.9g ", sub::raw_convert<int>(string("42")), sub::raw_convert<float>(string("1.25"))) + sub::raw_convert<string>(123456789ul);
		o += sub::locale_convert<string>(-7) + sub::locale_convert<string>(99ul) + mc::format("%d", sub::string_to_int("-12"));
		return o + outcome([]() { return mc::format("%d", sub::string_to_int("1x")); }) + outcome([]() { return mc::format("%d", sub::string_to_int("99999999999")); });
	}));
	return ops;
}

}

#endif
