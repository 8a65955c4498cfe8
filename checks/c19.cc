/* C19: code tables of binary STL files */
#include "mc.h"
#include "exceptions.h"
#include "stl_binary_tables.h"
#include "stl_util.h"
#include <cmath>

using std::string;
using std::vector;

/* EBU Tech 3264, appendix 3: codes 00 to 2B, then 7F down to 45 */
static const char* const languages[] = {
	"Unknown", "Albanian", "Breton", "Catalan", "Croatian", "Welsh", "Czech", "Danish", "German", "English", "Spanish", "Esperanto", "Estonian", "Basque", "Faroese", "French",
	"Frisian", "Irish", "Gaelic", "Galacian", "Icelandic", "Italian", "Lappish", "Latin", "Latvian", "Luxemborgian", "Lithuanian", "Hungarian", "Maltese", "Dutch", "Norwegian", "Occitan",
	"Polish", "Portugese", "Romanian", "Romansh", "Serbian", "Slovak", "Slovenian", "Finnish", "Swedish", "Turkish", "Flemish", "Wallon",
	"Amharic", "Arabic", "Armenian", "Assamese", "Azerbaijani", "Bambora", "Bielorussian", "Bengali", "Bulgarian", "Burmese", "Chinese", "Churash", "Dari", "Fulani", "Georgian", "Greek",
	"Gujarati", "Gurani", "Hausa", "Hebrew", "Hindi", "Indonesian", "Japanese", "Kannada", "Kazakh", "Khmer", "Korean", "Laotian", "Macedonian", "Malagasay", "Malaysian", "Moldavian",
	"Marathi", "Ndebele", "Nepali", "Oriya", "Papamiento", "Persian", "Punjabi", "Pushtu", "Quechua", "Russian", "Ruthenian", "Serbo Croat", "Shona", "Sinhalese", "Somali", "Sranan Tongo",
	"Swahili", "Tadzhik", "Tamil", "Tatar", "Telugu", "Thai", "Ukranian", "Urdu", "Uzbek", "Vietnamese", "Zulu"
};
static int const LANGUAGES = sizeof(languages) / sizeof(languages[0]);

/* The enumerators, in the same order */
static sub::Language const language_enums[] = {
#define L(x) sub::LANGUAGE_##x
	L(UNKNOWN), L(ALBANIAN), L(BRETON), L(CATALAN), L(CROATIAN), L(WELSH), L(CZECH), L(DANISH), L(GERMAN), L(ENGLISH), L(SPANISH), L(ESPERANTO), L(ESTONIAN), L(BASQUE), L(FAROESE), L(FRENCH),
	L(FRISIAN), L(IRISH), L(GAELIC), L(GALACIAN), L(ICELANDIC), L(ITALIAN), L(LAPPISH), L(LATIN), L(LATVIAN), L(LUXEMBORGIAN), L(LITHUANIAN), L(HUNGARIAN), L(MALTESE), L(DUTCH), L(NORWEGIAN), L(OCCITAN),
	L(POLISH), L(PORTUGESE), L(ROMANIAN), L(ROMANSH), L(SERBIAN), L(SLOVAK), L(SLOVENIAN), L(FINNISH), L(SWEDISH), L(TURKISH), L(FLEMISH), L(WALLON),
	L(AMHARIC), L(ARABIC), L(ARMENIAN), L(ASSAMESE), L(AZERBAIJANI), L(BAMBORA), L(BIELORUSSIAN), L(BENGALI), L(BULGARIAN), L(BURMESE), L(CHINESE), L(CHURASH), L(DARI), L(FULANI), L(GEORGIAN), L(GREEK),
	L(GUJURATI), L(GURANI), L(HAUSA), L(HEBREW), L(HINDI), L(INDONESIAN), L(JAPANESE), L(KANNADA), L(KAZAKH), L(KHMER), L(KOREAN), L(LAOTIAN), L(MACEDONIAN), L(MALAGASAY), L(MALAYSIAN), L(MOLDAVIAN),
	L(MARATHI), L(NDEBELE), L(NEPALI), L(ORIYA), L(PAPAMIENTO), L(PERSIAN), L(PUNJABI), L(PUSHTU), L(QUECHUA), L(RUSSIAN), L(RUTHENIAN), L(SERBO_CROAT), L(SHONA), L(SINHALESE), L(SOMALI), L(SRANAN_TONGO),
	L(SWAHILI), L(TADZHIK), L(TAMIL), L(TATAR), L(TELUGU), L(THAI), L(UKRANIAN), L(URDU), L(UZBEK), L(VIETNAMESE), L(ZULU)
};
static_assert(sizeof(language_enums) / sizeof(language_enums[0]) == sizeof(languages) / sizeof(languages[0]), "");

static string language_code(int i) { return mc::format("%02X", i < 0x2c ? i : 0x7f - (i - 0x2c)); }

struct Code { string code; int value; string description; };

static const vector<Code>& display_standards()
{
	static const vector<Code> c = {{" ", sub::DISPLAY_STANDARD_UNDEFINED, "Undefined"}, {"0", sub::DISPLAY_STANDARD_OPEN_SUBTITLING, "Open subtitling"},
		{"1", sub::DISPLAY_STANDARD_LEVEL_1_TELETEXT, "Level 1 teletext"}, {"2", sub::DISPLAY_STANDARD_LEVEL_2_TELETEXT, "Level 2 teletext"}};
	return c;
}

static const vector<Code>& language_groups()
{
	static const vector<Code> c = {{"00", sub::LANGUAGE_GROUP_LATIN, "Latin"}, {"01", sub::LANGUAGE_GROUP_LATIN_CYRILLIC, "Latin/Cyrillic"}, {"02", sub::LANGUAGE_GROUP_LATIN_ARABIC, "Latin/Arabic"},
		{"03", sub::LANGUAGE_GROUP_LATIN_GREEK, "Latin/Greek"}, {"04", sub::LANGUAGE_GROUP_LATIN_HEBREW, "Latin/Hebrew"}, {"U8", sub::LANGUAGE_GROUP_UTF8, "UTF-8"}};
	return c;
}

static const vector<Code>& timecode_statuses()
{
	static const vector<Code> c = {{"0", sub::TIMECODE_STATUS_NOT_INTENDED_FOR_USE, "Not intended for use"}, {"1", sub::TIMECODE_STATUS_INTENDED_FOR_USE, "Intended for use"}};
	return c;
}

static const vector<Code>& language_codes()
{
	static vector<Code> c;
	if (c.empty()) {
		for (int i = 0; i < LANGUAGES; ++i) c.push_back({language_code(i), language_enums[i], languages[i]});
	}
	return c;
}

static const vector<Code>& table(int t)
{
	switch (t) {
	case 0: return display_standards();
	case 1: return language_groups();
	case 2: return language_codes();
	default: return timecode_statuses();
	}
}

static int from_file(const sub::STLBinaryTables& t, int which, const string& s)
{
	switch (which) {
	case 0: return t.display_standard_file_to_enum(s);
	case 1: return t.language_group_file_to_enum(s);
	case 2: return t.language_file_to_enum(s);
	default: return t.timecode_status_file_to_enum(s);
	}
}

static string description(const sub::STLBinaryTables& t, int which, int v)
{
	switch (which) {
	case 0: return t.display_standard_enum_to_description((sub::DisplayStandard) v);
	case 1: return t.language_group_enum_to_description((sub::LanguageGroup) v);
	case 2: return t.language_enum_to_description((sub::Language) v);
	default: return t.timecode_status_enum_to_description((sub::TimecodeStatus) v);
	}
}

static const char* const names[] = {"display standard", "language group", "language", "timecode status"};

/** Every string of up to two bytes (and some longer ones) as a code */
static void strings(mc::Ctx& c)
{
	int which = c.pick(4), n = c.pick(4), a = n ? c.pick(256) : 0;
	if (!c.go()) return;
	static const sub::STLBinaryTables t;
	for (int b = 0; b < (n >= 2 ? 256 : 1); ++b) {
		string s;
		if (n >= 1) s += (char) a;
		if (n >= 2) s += (char) b;
		if (n == 3) s = string(names[which][0] == 'l' ? "09" : "1") + s;
		c.input(string(names[which]) + " code \"" + mc::show(s) + "\"");
		const Code* want = nullptr;
		for (auto& i: table(which)) if (i.code == s) want = &i;
		int got = -1;
		try {
			got = from_file(t, which, s);
		} catch (sub::STLError& e) {
			got = -2;
		} catch (std::exception& e) {
			c.fail("wrong-exception", e.what());
		}
		c.step();
		c.compared();
		c.state(mc::mix(which, mc::hash(s)));
		c.outcome(which * 1000 + got);
		c.check(got == (want ? want->value : -2), string(names[which]) + "-code", mc::format("gives %d instead of %d (-2 is an STL error)", got, want ? want->value : -2));
	}
}

static void integers(mc::Ctx& c)
{
	int which = c.pick(3), v = c.pick(600) - 100;
	if (!c.go()) return;
	static const sub::STLBinaryTables t;
	if (v > 300) v = (v - 300) * 65536 + (v & 3);
	c.input(mc::format("table %d value %d", which, v));
	int const n = which == 2 ? 2 : 4;
	bool const good = v >= 0 && v < n;
	static int const cumulative[] = {sub::CUMULATIVE_STATUS_NOT_CUMULATIVE, sub::CUMULATIVE_STATUS_FIRST, sub::CUMULATIVE_STATUS_INTERMEDIATE, sub::CUMULATIVE_STATUS_LAST};
	static int const justification[] = {sub::JUSTIFICATION_NONE, sub::JUSTIFICATION_LEFT, sub::JUSTIFICATION_CENTRE, sub::JUSTIFICATION_RIGHT};
	static int const comment[] = {sub::COMMENT_NO, sub::COMMENT_YES};
	int const* e = which == 0 ? cumulative : which == 1 ? justification : comment;
	static const char* const d[3][4] = {
		{"Not part of a cumulative set", "First subtitle of a cumulative set", "Intermediate subtitle of a cumulative set", "Last subtitle of a cumulative set"},
		{"No justification", "Left justification", "Centre justification", "Right justification"}, {"Not a comment", "Is a comment", "", ""}};
	int got = -1;
	try {
		got = which == 0 ? (int) t.cumulative_status_file_to_enum(v) : which == 1 ? (int) t.justification_file_to_enum(v) : (int) t.comment_file_to_enum(v);
	} catch (sub::STLError&) {
		got = -2;
	} catch (std::exception& x) {
		c.fail("wrong-exception", x.what());
	}
	c.step();
	c.compared();
	c.state(which * 100000 + v);
	c.outcome(got);
	c.check(got == (good ? e[v] : -2), "integer-code", mc::format("gives %d", got));
	if (good) {
		int back = which == 0 ? t.cumulative_status_enum_to_file((sub::CumulativeStatus) e[v]) : which == 1 ? t.justification_enum_to_file((sub::Justification) e[v]) : t.comment_enum_to_file((sub::Comment) e[v]);
		c.check(back == v, "integer-inverse", mc::format("enumerator gives code %d", back));
		string s = which == 0 ? t.cumulative_status_enum_to_description((sub::CumulativeStatus) e[v]) : which == 1 ? t.justification_enum_to_description((sub::Justification) e[v]) : t.comment_enum_to_description((sub::Comment) e[v]);
		c.check(s == d[which][v], "integer-description", "description " + s);
	}
}

/** Enumerators to codes and descriptions, and descriptions back */
static void inverses(mc::Ctx& c)
{
	int which = c.pick(4), i = c.pick(table(which).size());
	if (!c.go()) return;
	sub::STLBinaryTables const t;
	auto& k = table(which)[i];
	c.input(string(names[which]) + " " + k.description);
	string d = description(t, which, k.value);
	c.check(d == k.description, string(names[which]) + "-description", "description is \"" + d + "\"");
	if (which == 2) {
		string f = t.language_enum_to_file((sub::Language) k.value);
		c.check(f == k.code, "language-inverse", "code is " + f + " instead of " + k.code);
		auto e = t.language_description_to_enum(k.description);
		c.check(bool(e) && *e == k.value, "language-from-description", "description gives another enumerator");
		/* and nothing else does */
		for (size_t j = 0; j <= k.description.size(); ++j) {
			for (int b = 0; b < 4; ++b) {
				string x = k.description;
				if (b == 0) x = x.substr(0, j);
				if (b == 1) x.insert(j, 1, 'x');
				if (b == 2 && j < x.size()) x[j] ^= 32;
				if (b == 3) x += ' ';
				bool known = false;
				for (auto& l: language_codes()) known = known || l.description == x;
				if (!known) {
					c.check(!t.language_description_to_enum(x), "language-unknown-description", "\"" + x + "\" is taken for a language");
				}
			}
		}
	}
	c.step(3);
	c.compared();
	c.state(mc::mix(which, i));
	c.outcome(mc::hash(d));
}

static const struct { const char* dfc; float rate; } rates[] = {{"STL23.01", 23.976f}, {"STL24.01", 24}, {"STL25.01", 25}, {"STL30.01", 30}};

static void frame_rates(mc::Ctx& c)
{
	int kind = c.pick(3);
	float r = 0;
	if (kind == 0) r = (float) (c.pick(130000) / 1000.0);
	if (kind == 1) { static const vector<float> v = {24000 / 1001.f, 30000 / 1001.f, 60000 / 1001.f, 1e9f, -25, 0, INFINITY, 1e-30f}; r = c.of(v); }
	if (kind == 2) r = rates[c.pick(4)].rate + (float) ((c.pick(41) - 20) * 0.00025);
	if (!c.go()) return;
	c.input(mc::format("frame rate %.6f", r));
	string want = "STL25.01";
	for (auto& i: rates) if (std::fabs(r - i.rate) < 0.9e-4) want = i.dfc;
	for (auto& i: rates) if (std::fabs(r - i.rate) > 0.9e-4 && std::fabs(r - i.rate) < 1.1e-4) return;
	string got = sub::stl_frame_rate_to_dfc(r);
	c.step();
	c.compared();
	c.state(mc::hash_bytes(&r, sizeof r));
	c.outcome(mc::hash(got));
	c.check(got == want, "frame-rate-to-dfc", "gives " + got + " instead of " + want);
}

static void dfcs(mc::Ctx& c)
{
	int which = c.pick(4), kind = c.pick(4);
	string s = rates[which].dfc;
	if (kind == 1) { int i = c.pick(8); s[i] = (char) c.pick(256); }
	if (kind == 2) s = s.substr(0, c.pick(8));
	if (kind == 3) s += (char) c.pick(256);
	if (!c.go()) return;
	c.input("disk format code " + mc::show(s));
	float want = -1, got;
	for (auto& i: rates) if (s == i.dfc) want = i.rate;
	try {
		got = sub::stl_dfc_to_frame_rate(s);
	} catch (sub::STLError&) {
		got = -1;
	} catch (std::exception& x) {
		c.fail("wrong-exception", x.what());
	}
	c.step();
	c.compared();
	c.state(mc::hash(s));
	c.outcome((int) (got * 1000));
	c.check(got == want, "dfc-to-frame-rate", mc::format("gives %g instead of %g", got, want));
	if (want > 0) c.check(sub::stl_frame_rate_to_dfc(got) == s, "dfc-inverse", "and back is " + sub::stl_frame_rate_to_dfc(got));
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C19";
	return mc::main(argc, argv, o, {
		{"strings", 0, 0, strings},
		{"integers", 0, 0, integers},
		{"inverses", 0, 0, inverses},
		{"frame-rates", 0, 0, frame_rates},
		{"disk-format-codes", 0, 0, dfcs},
	}, "every string of up to two bytes (and of three with a valid beginning) for each table, integers -100..300 and beyond, every enumerator, every frame rate from 0 to 130 in steps of 1/1000, every one-byte change, truncation and extension of the disk format codes; compared with the tables of EBU Tech 3264",
	{"the tables in checks/c19.cc are those of EBU Tech 3264 (spelling of descriptions as in libsub)"});
}
