SEEDS = [
 dict(id='C01-empty-segment', property='C01',
  needs='a content line with two U+2028 separators in a row (or one at its end followed by another line)',
  breaks='an empty segment between U+2028 separators no longer takes up a line, so the lines after it move up',
  edits=[('src/subrip_reader.cc', '''					convert_line(line_number, sub_line, rs);
''', '''					if (sub_line.empty()) {
						continue;
					}
					convert_line(line_number, sub_line, rs);
''')],
  demo=r'''
int main()
{
	sub::SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\na\xe2\x80\xa8\xe2\x80\xa8" "b\n"));
	auto s = r.subtitles();
	EXPECT(s.size() == 2);
	EXPECT(s[0].vertical_position.line.get() == 0);
	EXPECT(s[1].vertical_position.line.get() == 2);
	return 0;
}
'''),
 dict(id='C03-style-leak', property='C03',
  needs='an event with an unknown style, and no Default style, after an event which had a known style; and a bare \\c tag in it',
  breaks='the style of an earlier event supplies the colour that \\c goes back to in an event whose style does not exist',
  edits=[('src/ssa_reader.cc', '''				RawSubtitle sub;
				optional<Style> style;
''', '''				RawSubtitle sub;
'''), ('src/ssa_reader.cc', '''	vector<string> event_format;

	while (true) {
''', '''	vector<string> event_format;
	optional<Style> style;

	while (true) {
''')],
  demo=r'''
int main()
{
	sub::SSAReader r(string(
		"[Script Info]\n[V4+ Styles]\nFormat: Name, PrimaryColour\nStyle: Red,&H0000FF\n"
		"[Events]\nFormat: Start, End, Style, Text\n"
		"Dialogue: 0:00:01.00,0:00:02.00,Red,one\n"
		"Dialogue: 0:00:03.00,0:00:04.00,Other,{\\c&H00FF00&}two{\\c}three\n"));
	auto s = r.subtitles();
	EXPECT(s.size() == 3);
	EXPECT(s[0].colour == sub::Colour(1, 0, 0));
	EXPECT(s[1].colour == sub::Colour(0, 1, 0));
	EXPECT(s[2].colour == sub::Colour(1, 1, 1));
	return 0;
}
'''),
 dict(id='C04-last-break', property='C04',
  needs='an event from the bottom of the screen whose text ends with a line break',
  breaks='a line break at the very end of the text is not counted when the lines are placed',
  edits=[('src/ssa_reader.cc', '''	if (line.length() > 0) {
		for (size_t i = 0; i < line.length() - 1; ++i) {
''', '''	if (line.length() > 1) {
		for (size_t i = 0; i < line.length() - 2; ++i) {
''')],
  demo=r'''
int main()
{
	auto at = [](string text) {
		sub::SSAReader r("[Script Info]\nPlayResY: 1000\n[V4+ Styles]\nFormat: Name, Fontsize\nStyle: Default,100\n"
			"[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,Default," + text + "\n");
		return r.subtitles().front().vertical_position.proportional.get();
	};
	float const one = at("top\\Nbottom");
	float const two = at("top\\N");
	EXPECT(one > 0.11 && one < 0.13);
	EXPECT(two > 0.11 && two < 0.13);
	return 0;
}
'''),
 dict(id='C06-white', property='C06',
  needs='text before a white (07h) colour code in the same row of a binary STL subtitle',
  breaks='the text before a change to white is joined to the text after it and becomes white',
  edits=[('src/stl_binary_reader.cc', 'if (c <= 0x07 || (c >= 0x80 && c <= 0x83)) {', 'if (c < 0x07 || (c >= 0x80 && c <= 0x83)) {')],
  demo=r'''
int main()
{
	sub::RawSubtitle raw;
	raw.text = "abcd";
	raw.from = sub::Time::from_hms(0, 0, 1, 0);
	raw.to = sub::Time::from_hms(0, 0, 2, 0);
	raw.vertical_position.line = 1;
	raw.vertical_position.lines = 23;
	raw.vertical_position.reference = sub::TOP_OF_SCREEN;
	sub::write_stl_binary(sub::collect<vector<sub::Subtitle>>({raw}), 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "240101", "240101", 1, "GBR", "", "", "", "x.stl");
	std::ifstream f("x.stl");
	std::stringstream s;
	s << f.rdbuf();
	string d = s.str();
	string const t = "\x01" "ab\x07" "cd";
	d.replace(1024 + 16, t.size(), t);
	std::istringstream i(d);
	sub::STLBinaryReader r(i);
	sub::Colour c;
	string red, white;
	for (auto& k: r.subtitles()) {
		(k.colour == sub::Colour(1, 0, 0) ? red : white) += k.text;
	}
	EXPECT(red == "ab");
	EXPECT(white == "cd");
	return 0;
}
'''),
 dict(id='C07-exact-block', property='C07',
  needs='a subtitle whose encoded text fills its last TTI block exactly (a multiple of 112 bytes)',
  breaks='the last block of such a subtitle is not marked as the last',
  edits=[('src/stl_binary_writer.cc', 'put_int_as_int (buffer + 3, offset == text.length() ? 0xff : block_number, 1);', 'put_int_as_int (buffer + 3, this_time < block_size ? 0xff : block_number, 1);')],
  demo=r'''
int main()
{
	for (int n = 100; n < 240; ++n) {
		sub::RawSubtitle raw;
		raw.text = string(n, 'x');
		raw.from = sub::Time::from_hms(0, 0, 1, 0);
		raw.to = sub::Time::from_hms(0, 0, 2, 0);
		raw.vertical_position.line = 1;
		raw.vertical_position.lines = 23;
		raw.vertical_position.reference = sub::TOP_OF_SCREEN;
		sub::write_stl_binary(sub::collect<vector<sub::Subtitle>>({raw}), 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "240101", "240101", 1, "GBR", "", "", "", "x.stl");
		std::ifstream f("x.stl");
		std::stringstream s;
		s << f.rdbuf();
		string const d = s.str();
		EXPECT(d.size() > 1024 && (d.size() - 1024) % 128 == 0);
		EXPECT((unsigned char) d[d.size() - 128 + 3] == 0xff);
	}
	return 0;
}
'''),
 dict(id='C10-add-rate', property='C10',
  needs='adding a time with a finer frame rate to one with a coarser rate',
  breaks='the sum is rounded to the rate of the first time, so part of the second is lost',
  edits=[('src/sub_time.cc', 'Rational result_rate = max (*_rate, *t._rate);', 'Rational result_rate = *_rate;')],
  demo=r'''
int main()
{
	sub::Time a = sub::Time::from_frames(26, sub::Rational(25, 1));
	a.add(sub::Time::from_hms(0, 0, 1, 15));
	EXPECT(a.all_as_seconds() > 2.0549 && a.all_as_seconds() < 2.0551);
	return 0;
}
'''),
 dict(id='C11-fade', property='C11',
  needs='two pieces with the same times and position, of which only one has a fade',
  breaks='pieces with different fades are put in the same subtitle, losing the fade of the second',
  edits=[('src/subtitle.cc', 'return from == s.from && to == s.to && fade_up == s.fade_up && fade_down == s.fade_down;', 'return from == s.from && to == s.to && (!s.fade_up || fade_up == s.fade_up) && (!s.fade_down || fade_down == s.fade_down);')],
  demo=r'''
int main()
{
	sub::RawSubtitle a;
	a.text = "a";
	a.from = sub::Time::from_hms(0, 0, 1, 0);
	a.to = sub::Time::from_hms(0, 0, 2, 0);
	a.vertical_position.line = 1;
	a.vertical_position.reference = sub::TOP_OF_SUBTITLE;
	sub::RawSubtitle b = a;
	a.fade_up = sub::Time::from_hms(0, 0, 0, 500);
	b.text = "b";
	auto s = sub::collect<vector<sub::Subtitle>>({a, b});
	EXPECT(s.size() == 2);
	EXPECT(s[0].fade_up);
	EXPECT(!s[1].fade_up);
	return 0;
}
'''),
 dict(id='C13-style-fields', property='C13',
  needs='an SSA style line with more values than its format line has names',
  breaks='the names are read past the end of their vector',
  edits=[('src/ssa_reader.cc', 'SUB_ASSERT (keys.size() == style.size());', 'SUB_ASSERT (keys.size() <= style.size());')],
  prefix='MALLOC_PERTURB_=165 ',
  demo=r'''
int main()
{
	string extra;
	for (int i = 0; i < 4000; ++i) extra += ",1";
	try {
		sub::SSAReader r("[V4+ Styles]\nFormat: Name, Fontsize\nStyle: Default,100" + extra + "\n");
		printf("no complaint\n");
		return 1;
	} catch (std::exception& e) {
		EXPECT(string(e.what()).find("SUB_ASSERT") != string::npos || string(e.what()).find("rogramming") != string::npos);
	}
	return 0;
}
'''),
 dict(id='C14-put-int', property='C14',
  needs='a global C++ locale with digit grouping, and a file of a thousand subtitles or more',
  breaks='the counts in the header of a binary STL file are written with thousands separators of the global locale',
  edits=[('src/stl_binary_writer.cc', '''		snprintf (buffer, sizeof(buffer), "%05d", v);
''', '''		snprintf (buffer, sizeof(buffer), "%s", (std::ostringstream() << setw(5) << setfill('0') << v).str().c_str());
''')],
  demo=r'''
struct Grouped : std::numpunct<char> {
	char do_thousands_sep() const override { return ','; }
	string do_grouping() const override { return "\3"; }
};
int main()
{
	std::locale::global(std::locale(std::locale(), new Grouped));
	vector<sub::RawSubtitle> raw;
	for (int n = 0; n < 1234; ++n) {
		sub::RawSubtitle r;
		r.text = "x";
		r.from = sub::Time::from_hms(0, 0, n, 0);
		r.to = sub::Time::from_hms(0, 0, n, 500);
		r.vertical_position.line = 1;
		r.vertical_position.lines = 23;
		r.vertical_position.reference = sub::TOP_OF_SCREEN;
		raw.push_back(r);
	}
	sub::write_stl_binary(sub::collect<vector<sub::Subtitle>>(raw), 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "240101", "240101", 1, "GBR", "", "", "", "x.stl");
	std::ifstream f("x.stl");
	std::stringstream s;
	s << f.rdbuf();
	EXPECT(s.str().substr(238, 10) == "0123401234");
	return 0;
}
'''),
 dict(id='C18-extension', property='C18',
  needs='a path with no extension in a directory whose name has a dot in it (or no dot at all)',
  breaks='the extension of the directory is taken to be that of the file, and a name with no dot makes an exception',
  edits=[('src/reader_factory.cc', 'string ext = file_name.extension().string();', 'string ext = file_name.string().substr(file_name.string().rfind("."));')],
  demo=r'''
#include <boost/filesystem.hpp>
int main()
{
	boost::filesystem::create_directories("d.srt");
	std::ofstream("d.srt/foo") << "not a subtitle\nat all\n";
	EXPECT(!sub::reader_factory(boost::filesystem::path("d.srt") / "foo"));
	EXPECT(!sub::reader_factory(boost::filesystem::path("foo")));
	return 0;
}
'''),
 dict(id='C19-kurdish', property='C19',
  needs='a file in the language whose code this is',
  breaks='one language code is given to another language as well',
  edits=[]),
 dict(id='C20-blank-context', property='C20',
  needs='an error with a blank line among the lines before it',
  breaks='blank lines are left out of the context given with errors',
  edits=[('src/subrip_reader.cc', '''		_context.push_back (*line);
		if (_context.size() > 5) {''', '''		if (!line->empty()) {
			_context.push_back (*line);
		}
		if (_context.size() > 5) {''')],
  demo=r'''
int main()
{
	try {
		sub::SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\nfoo\n\n2\nbar\nfred\njim\n"));
	} catch (sub::SubripError& e) {
		auto c = e.context();
		vector<string> v(c.begin(), c.end());
		EXPECT(v.size() == 7);
		EXPECT(v[1] == "foo" || v[2] == "");
		bool blank = false;
		for (auto& i: v) blank = blank || i.empty();
		EXPECT(blank);
		return 0;
	}
	return 1;
}
'''),
 dict(id='C22-style-across-lines', property='C22',
  needs='italic text at the end of one line of a subtitle and at the start of the next',
  breaks='the italics are not turned on again for the second line',
  edits=[('src/util.cc', '''		for (auto const& j: i.lines) {

			os << "\\t";
''', '''		bool italic = false;
		bool underline = false;
		for (auto const& j: i.lines) {

			os << "\\t";
'''), ('src/util.cc', '''			os << "\\t";
			bool italic = false;
			bool underline = false;
			for (auto const& k: j.blocks) {''', '''			os << "\\t";
			for (auto const& k: j.blocks) {''')],
  demo=r'''
int main()
{
	auto r = std::make_shared<sub::SubripReader>(string("1\n00:00:01,000 --> 00:00:02,000\n<i>foo\nbar</i>\n"));
	std::ostringstream s;
	sub::dump(r, s);
	EXPECT(s.str().find("<i>foo</i>") != string::npos);
	EXPECT(s.str().find("<i>bar</i>") != string::npos);
	return 0;
}
'''),
 dict(id='C23-short-tti', property='C23',
  needs='a binary STL file supplied as a stream whose last block is cut short',
  breaks='the rest of the previous block is taken to be the end of the cut one, with no error',
  edits=[('src/stl_binary_reader.cc', '''		if (_in.gcount() != size) {
''', '''		if (_in.gcount() == 0) {
''')],
  demo=r'''
int main()
{
	sub::RawSubtitle raw;
	raw.text = "abcd";
	raw.from = sub::Time::from_hms(0, 0, 1, 0);
	raw.to = sub::Time::from_hms(0, 0, 2, 0);
	raw.vertical_position.line = 1;
	raw.vertical_position.lines = 23;
	raw.vertical_position.reference = sub::TOP_OF_SCREEN;
	sub::write_stl_binary(sub::collect<vector<sub::Subtitle>>({raw}), 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "240101", "240101", 1, "GBR", "", "", "", "x.stl");
	std::ifstream f("x.stl");
	std::stringstream s;
	s << f.rdbuf();
	std::istringstream i(s.str().substr(0, 1100));
	try {
		sub::STLBinaryReader r(i);
	} catch (sub::STLError&) {
		return 0;
	}
	printf("no error\n");
	return 1;
}
'''),
 dict(id='C05-comment', property='C05',
  needs='// in the text of a subtitle (e.g. an address of a web site)',
  breaks='subtitles with // anywhere in them are skipped',
  edits=[('src/stl_text_reader.cc', '''		if (starts_with (line, "//")) {''', '''		if (line.find("//") != string::npos) {''')],
  demo=r'''
int main()
{
	std::istringstream i("// comment\n00:00:01:00,00:00:02:00,see http://example.com\n");
	sub::STLTextReader r(i);
	EXPECT(r.subtitles().size() == 1);
	return 0;
}
'''),
 dict(id='C21-position-equality', property='C21',
  needs='comparing two positions which have both a proportion and a line, with only the line different',
  breaks='',
  edits=[]),
]
SEEDS = [s for s in SEEDS if s['edits']]
