WRITE = r'''
static void write(const vector<sub::Subtitle>& s, const string& p)
{
	sub::write_stl_binary(s, 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "240101", "240101", 1, "GBR", "", "", "", p);
}
static sub::RawSubtitle piece(const string& t, int from, int to, int line, bool italic = false, bool underline = false)
{
	sub::RawSubtitle raw;
	raw.text = t;
	raw.from = sub::Time::from_hms(0, 0, from, 0);
	raw.to = sub::Time::from_hms(0, 0, to, 0);
	raw.vertical_position.line = line;
	raw.vertical_position.lines = 23;
	raw.vertical_position.reference = sub::TOP_OF_SCREEN;
	raw.italic = italic;
	raw.underline = underline;
	return raw;
}
static vector<sub::Subtitle> collected(const vector<sub::RawSubtitle>& r) { return sub::collect<vector<sub::Subtitle>>(r); }
static string slurp(const string& p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
'''
SEEDS = [
 dict(id='C15-static-buffer', property='C15',
  needs='two threads writing binary STL files at the same time',
  breaks='each may put parts of the other\'s subtitles into its file',
  edits=[('src/stl_binary_writer.cc', '	char buffer[tti_size];', '	static char buffer[tti_size];')],
  demo='#include <thread>\n#include <atomic>\n' + WRITE + r'''
int main()
{
	std::atomic<bool> bad{false};
	auto work = [&](int n) {
		vector<sub::RawSubtitle> r;
		for (int i = 0; i < 200; ++i) r.push_back(piece(string(100, 'a' + n), i * 2, i * 2 + 1, 3));
		auto s = collected(r);
		string const p = string(1, 'a' + n) + ".stl";
		string want;
		for (int i = 0; i < 400 && !bad; ++i) {
			write(s, p);
			string const d = slurp(p);
			for (int j = 0; j < 4; ++j) if (j != n && d.find(string(50, 'a' + j)) != string::npos) bad = true;
		}
	};
	vector<std::thread> t;
	for (int i = 0; i < 4; ++i) t.push_back(std::thread(work, i));
	for (auto& i: t) i.join();
	if (bad) printf("text of another thread was written\n");
	return bad;
}
'''),
 dict(id='C15-last-found', property='C15',
  needs='two threads converting text to ISO 6937 at the same time',
  breaks='a remembered character of one thread is given to the other',
  edits=[('src/iso6937.cc', '''	for (map<char, wchar_t>::const_iterator i = m.begin(); i != m.end(); ++i) {
		if (i->second == c) {
			return i->first;
		}
	}

	return optional<char> ();
''', '''	/* Most text has the same characters again and again, so remember where the last one was */
	static map<char, wchar_t> const * last_map = nullptr;
	static wchar_t last = 0;
	static char last_found = 0;
	if (last_map == &m && last == c) {
		return last_found;
	}

	for (map<char, wchar_t>::const_iterator i = m.begin(); i != m.end(); ++i) {
		if (i->second == c) {
			last_map = &m;
			last = c;
			last_found = i->first;
			return i->first;
		}
	}

	return optional<char> ();
''')],
  demo=r'''
#include <thread>
#include <atomic>
int main()
{
	std::atomic<bool> bad{false};
	auto work = [&](std::wstring s) {
		string const want = sub::utf16_to_iso6937(s);
		for (int i = 0; i < 20000 && !bad; ++i) if (sub::utf16_to_iso6937(s) != want) bad = true;
	};
	sub::utf16_to_iso6937(L"first use");
	vector<std::thread> t;
	for (auto s: {L"aaaabbbbzzzzaaaazzzz", L"cccceeeeccccggggcccc", L"xyxyxyxxyyzzxxyyyyxx", L"zzzzyyyyqqqqzzzzqqqq"}) t.push_back(std::thread(work, s));
	for (auto& i: t) i.join();
	if (bad) printf("text was converted wrongly\n");
	return bad;
}
'''),
 dict(id='C17-static-tag', property='C17',
  needs='an SSA event which ends inside {...}, and another event read afterwards by any reader in the process',
  breaks='the unfinished tag is put in front of the first tag of the next event',
  edits=[('src/ssa_reader.cc', '''	RawSubtitle current = base;
	string tag;
''', '''	RawSubtitle current = base;
	static string tag;
''')],
  demo=r'''
static string read(const string& text)
{
	sub::SSAReader r("[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,0:00:02.00," + text + "\n");
	string o;
	for (auto& i: r.subtitles()) o += i.text + (i.italic ? "/i" : "") + (i.bold ? "/b " : " ");
	return o;
}
int main()
{
	EXPECT(read("a{\\i1}b") == "a b/i ");
	EXPECT(read("a{\\b1") == "a ");
	EXPECT(read("a{\\i1}b") == "a b/i ");
	return 0;
}
'''),
 dict(id='C02-trailing-space', property='C02',
  needs='a line of a WebVTT cue which ends with spaces, or which is only spaces',
  breaks='spaces are lost, and a line of spaces ends the cue',
  edits=[('src/web_vtt_reader.cc', '''		trim_right_if(*line, boost::is_any_of("\\n\\r"));
		remove_unicode_bom(line);''', '''		trim_right_if(*line, boost::is_any_of("\\n\\r "));
		remove_unicode_bom(line);''')],
  demo=r'''
int main()
{
	sub::WebVTTReader r(string("WEBVTT\n\n00:00:01.000 --> 00:00:02.000\nfoo \n \nbar\n"));
	EXPECT(r.subtitles().size() == 3);
	EXPECT(r.subtitles()[0].text == "foo ");
	EXPECT(r.subtitles()[2].text == "bar");
	return 0;
}
'''),
 dict(id='C08-underline-after', property='C08',
  needs='two subtitles one after the other which both end and begin with underlined text',
  breaks='the second is written without its underline',
  edits=[('src/stl_binary_writer.cc', '''	for (auto const& i: subtitles) {

		/* Find the top vertical position of this subtitle */''', '''	bool underline = false;

	for (auto const& i: subtitles) {

		/* Find the top vertical position of this subtitle */'''),
   ('src/stl_binary_writer.cc', '''		bool italic = false;
		bool underline = false;
		optional<int> last_vp;''', '''		bool italic = false;
		optional<int> last_vp;''')],
  demo=WRITE + r'''
int main()
{
	write(collected({piece("one", 1, 2, 3, false, true), piece("two", 3, 4, 3, false, true)}), "a.stl");
	auto r = sub::reader_factory("a.stl");
	int n = 0;
	for (auto& i: r->subtitles()) {
		if (i.text == "one" || i.text == "two") {
			++n;
			EXPECT(i.underline);
		}
	}
	EXPECT(n == 2);
	return 0;
}
'''),
 dict(id='C09-eng', property='C09',
  needs='text with the letter eng in it',
  breaks='the capital and small letters are exchanged by decoding, and so by encoding',
  edits=[('src/iso6937_tables.cc', '	main[238U] = 0x014A;', '	main[238U] = 0x014B;'), ('src/iso6937_tables.cc', '	main[254U] = 0x014B;', '	main[254U] = 0x014A;')],
  demo=r'''
int main()
{
	EXPECT(sub::iso6937_to_utf16("\xee") == L"\u014a");
	EXPECT(sub::iso6937_to_utf16("\xfe") == L"\u014b");
	return 0;
}
'''),
 dict(id='C16-in-place', property='C16',
  needs='writing a file over a longer one',
  breaks='the end of the old file is left after the new one',
  edits=[('src/stl_binary_writer.cc', '	ofstream output (file_name.string().c_str());', '''	/* Write over any file that is there, so that its permissions and any links to it are kept */
	ofstream output (file_name.string().c_str(), boost::filesystem::exists(file_name) ? (std::ios::in | std::ios::out) : std::ios::out);''')],
  demo=WRITE + r'''
int main()
{
	write(collected({piece("one", 1, 2, 3)}), "a.stl");
	string const want = slurp("a.stl");
	write(collected({piece("one", 1, 2, 3), piece("two", 3, 4, 3)}), "a.stl");
	write(collected({piece("one", 1, 2, 3)}), "a.stl");
	EXPECT(slurp("a.stl") == want);
	return 0;
}
'''),
 dict(id='C21-lines', property='C21',
  needs='comparing two vertical positions on the same line of different numbers of lines',
  breaks='they are taken to be the same',
  edits=[('src/vertical_position.cc', '''		return line == other.line && lines == other.lines && reference == other.reference;
''', '''		return line == other.line && reference == other.reference;
''')],
  demo=r'''
int main()
{
	sub::VerticalPosition a, b;
	a.reference = b.reference = sub::TOP_OF_SCREEN;
	a.line = b.line = 4;
	a.lines = 10;
	b.lines = 23;
	EXPECT(!(a == b));
	b.lines = 10;
	EXPECT(a == b);
	return 0;
}
'''),
 dict(id='C12-fgets', property='C12',
  needs='a text file with a line of 256 bytes or more read with a FILE',
  breaks='the line is broken in two, but not when the same text is read from a string',
  edits=[]),
]
SEEDS = [s for s in SEEDS if s['edits']]
