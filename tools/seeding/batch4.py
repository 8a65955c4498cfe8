SEEDS = [
 dict(id='C24-sorted-lines', property='C24',
  needs='a cue with a line above the one before it, e.g. an SSA event whose second line is given another place on the screen',
  breaks='lines of text are written in order of their place on the screen rather than in the order of the document',
  edits=[('src/stl_binary_writer.cc','''		for (auto const& j: i.lines) {

			/* CR/LF''','''		auto lines = i.lines;
		lines.sort ([](Line const& a, Line const& b) { return vertical_position(a) < vertical_position(b); });

		for (auto const& j: lines) {

			/* CR/LF''')] if False else [('src/stl_binary_writer.cc','''		for (auto const& j: i.lines) {

			/* CR/LF''','''		auto lines = i.lines;
		std::stable_sort (lines.begin(), lines.end(), [](Line const& a, Line const& b) { return vertical_position(a) < vertical_position(b); });

		for (auto const& j: lines) {

			/* CR/LF''')],
  demo=r'''
int main()
{
	sub::SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\n{\\pos(100,200)}first\n{\\pos(100,50)}second\n\n"));
	auto s = sub::collect<vector<sub::Subtitle>>(r.subtitles());
	EXPECT(s.size() == 1 && s[0].lines.size() == 2);
	sub::write_stl_binary(s, 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "140203", "140203", 0, "GBR", "", "", "", "x.stl");
	auto t = sub::collect<vector<sub::Subtitle>>(sub::reader_factory("x.stl")->subtitles());
	EXPECT(t.size() == 1 && t[0].lines.size() == 2);
	EXPECT(t[0].lines.front().blocks.front().text == "first");
	EXPECT(t[0].lines.back().blocks.front().text == "second");
	return 0;
}
'''),
 dict(id='C20-context-blank', property='C20',
  needs='an error five lines after a blank line or more',
  breaks='the context of an error has more than five lines if the oldest is blank',
  edits=[('src/subrip_reader.cc','		if (_context.size() > 5) {','		/* Keep blank lines, which separate subtitles */\n		if (_context.size() > 5 && !_context.front().empty()) {')],
  demo=r'''
int main()
{
	try {
		sub::SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\na\n\n\n2\n00:00:01,000 --> 00:00:02,000\nb\nc\n<font color=\"#12\">d\n\n"));
	} catch (sub::SubripError& e) {
		EXPECT(e.context().size() == 5);
		return 0;
	}
	return 1;
}
'''),
 dict(id='C21-both-sizes', property='C21',
  needs='font sizes which are given both in points and as a proportion',
  breaks='sizes with different numbers of points are equal',
  edits=[('src/font_size.cc','a.points() == b.points()','(a.proportional() || a.points() == b.points())')],
  demo=r'''
int main()
{
	auto a = sub::FontSize::from_points(42), b = sub::FontSize::from_points(43);
	EXPECT(!(a == b));
	a.set_proportional(0.5);
	b.set_proportional(0.5);
	EXPECT(!(a == b));
	b.set_points(42);
	EXPECT(a == b);
	return 0;
}
'''),
 dict(id='C22-both-styles', property='C22',
  needs='a line which ends with text that is both italic and underlined',
  breaks='the underline is not closed',
  edits=[('src/util.cc','''				os << "</i>";
			}
			if (underline) {''','''				os << "</i>";
			} else if (underline) {''')],
  demo=r'''
int main()
{
	struct R : public sub::Reader {
		R () {
			sub::RawSubtitle s;
			s.from = sub::Time::from_hms(0, 0, 1, 0);
			s.to = sub::Time::from_hms(0, 0, 2, 0);
			s.text = "x";
			s.italic = s.underline = true;
			_subs.push_back(s);
		}
	};
	std::stringstream out;
	sub::dump(std::make_shared<R>(), out);
	EXPECT(out.str().find("</u>") != string::npos);
	EXPECT(out.str().find("</i>") != string::npos);
	return 0;
}
'''),
 dict(id='C23-last-block', property='C23',
  needs='a binary STL file supplied as a FILE whose last block is cut short',
  breaks='the last block is taken to be complete with whatever was in the buffer',
  edits=[('src/stl_binary_reader.cc','		if (static_cast<int>(N) != size) {','		/* Allow padding to be missing from the end of the last block */\n		if (static_cast<int>(N) != size && !(feof(_in) && N > 16 && size < 1024)) {')],
  demo=r'''
int main()
{
	sub::SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\nfirst\n\n2\n00:00:03,000 --> 00:00:04,000\nsecond\n\n"));
	auto s = sub::collect<vector<sub::Subtitle>>(r.subtitles());
	sub::write_stl_binary(s, 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "140203", "140203", 0, "GBR", "", "", "", "x.stl");
	string b;
	{
		std::ifstream f("x.stl");
		std::stringstream t;
		t << f.rdbuf();
		b = t.str();
	}
	EXPECT(b.size() == 1024 + 256);
	{ std::ofstream f("y.stl"); f.write(b.data(), b.size() - 108); }
	FILE* f = fopen("y.stl", "rb");
	try {
		sub::STLBinaryReader q(f);
	} catch (std::exception&) {
		fclose(f);
		return 0;
	}
	printf("a file which is cut short was accepted\n");
	return 1;
}
'''),
 dict(id='C02-instant', property='C02',
  needs='a cue which lasts for no time, after another cue',
  breaks='the line numbers of the cue follow on from those of the one before',
  edits=[('src/web_vtt_reader.cc','''				rs.vertical_position.line = 0;
				state = State::SUBTITLE;''','''				if (rs.from != rs.to) {
					rs.vertical_position.line = 0;
				}
				state = State::SUBTITLE;''')],
  demo=r'''
int main()
{
	sub::WebVTTReader r(string("WEBVTT\n\n00:00:01.000 --> 00:00:02.000\nx\n\n00:00:03.000 --> 00:00:03.000\ny\n\n"));
	EXPECT(r.subtitles().size() == 2);
	EXPECT(r.subtitles()[1].vertical_position.line.get() == 0);
	return 0;
}
'''),
 dict(id='C03-stars', property='C03',
  needs='an event whose style has more than one leading *',
  breaks='only the first is ignored, so that the style is not found',
  edits=[('src/ssa_reader.cc','trim_left_if (event[i], boost::is_any_of ("*"));','if (starts_with (event[i], "*")) {\n							event[i] = event[i].substr (1);\n						}')],
  demo=r'''
int main()
{
	sub::SSAReader r(string(
		"[Script Info]\n[V4+ Styles]\nFormat: Name, Bold\nStyle: A, -1\n[Events]\nFormat: Start, End, Style, Text\n"
		"Dialogue: 0:00:01.00,0:00:02.00,*A,x\nDialogue: 0:00:01.00,0:00:02.00,**A,y\n"));
	EXPECT(r.subtitles().size() == 2);
	EXPECT(r.subtitles()[0].bold);
	EXPECT(r.subtitles()[1].bold);
	return 0;
}
'''),
 dict(id='C03-format-again', property='C03',
  needs='a second Format line in the events of a file',
  breaks='events after the second Format line are read with the first',
  edits=[('src/ssa_reader.cc','				split (event_format, body, is_any_of (","));','''				if (!event_format.empty()) {
					/* We already know */
					break;
				}
				split (event_format, body, is_any_of (","));''')],
  demo=r'''
int main()
{
	sub::SSAReader r(string(
		"[Script Info]\n[V4+ Styles]\nFormat: Name, Bold\nStyle: A, -1\n[Events]\nFormat: Start, End, Style, Text\n"
		"Dialogue: 0:00:01.00,0:00:02.00,A,x\nFormat: End, Start, Style, Text\nDialogue: 0:00:02.00,0:00:01.00,A,y\n"));
	EXPECT(r.subtitles().size() == 2);
	EXPECT(r.subtitles()[1].from == sub::Time::from_hms(0, 0, 1, 0));
	EXPECT(r.subtitles()[1].to == sub::Time::from_hms(0, 0, 2, 0));
	return 0;
}
'''),
 dict(id='C01-brace-case', property='C01',
  needs='{/U} in upper case',
  breaks='it is taken for text',
  edits=[('src/subrip_reader.cc','has_next(t, i, "</u>") || has_next(t, i, "{/u}")','has_next(t, i, "</u>") || (t.compare(i, 4, "{/u}") == 0 && has_next(t, i, "{/u}"))')],
  demo=r'''
int main()
{
	sub::SubripReader r(string("1\n00:00:01,000 --> 00:00:02,000\n{U}x{/U}y\n\n"));
	EXPECT(r.subtitles().size() == 2);
	EXPECT(r.subtitles()[0].underline && r.subtitles()[0].text == "x");
	EXPECT(!r.subtitles()[1].underline && r.subtitles()[1].text == "y");
	return 0;
}
'''),
 dict(id='C11-first-line', property='C11',
  needs='a piece at the position of the first line after one at another position, all at the same times',
  breaks='the piece is added to the last line, which is somewhere else',
  edits=[('src/collect.h','			if (!current->lines.empty() && current->lines.back().same_metadata(i)) {','			if (!current->lines.empty() && (current->lines.front().same_metadata(i) || current->lines.back().same_metadata(i))) {')],
  demo=r'''
int main()
{
	vector<sub::RawSubtitle> p;
	for (int i: {0, 1, 0}) {
		sub::RawSubtitle s;
		s.from = sub::Time::from_hms(0, 0, 1, 0);
		s.to = sub::Time::from_hms(0, 0, 2, 0);
		s.text = "x";
		s.vertical_position.line = i;
		s.vertical_position.reference = sub::TOP_OF_SUBTITLE;
		p.push_back(s);
	}
	auto s = sub::collect<vector<sub::Subtitle>>(p);
	EXPECT(s.size() == 1);
	EXPECT(s[0].lines.size() == 3);
	return 0;
}
'''),
 dict(id='C13-pos', property='C13',
  needs='\\pos with only one value',
  breaks='memory beyond the values is read',
  edits=[('src/ssa_reader.cc','		SUB_ASSERT (bits.size() == 3);','		SUB_ASSERT (bits.size() >= 2);')],
  prefix='ASAN_OPTIONS=detect_leaks=0 ',
  demo=r'''
int main()
{
	for (auto t: {"{\\pos(1)}x", "{\\pos(1}x", "{\\pos,2}x"}) {
		try {
			sub::SSAReader r(string("[Script Info]\n[Events]\nFormat: Start, End, Text\nDialogue: 0:00:01.00,0:00:02.00,") + t + "\n");
		} catch (std::exception&) {
			continue;
		}
		printf("%s is accepted\n", t);
		return 1;
	}
	return 0;
}
'''),
 dict(id='C05-one-character', property='C05',
  needs='a subtitle whose text is a single character',
  breaks='the line is not recognised',
  edits=[('src/stl_text_reader.cc','divider[1] >= line.length() - 1','divider[1] + 2 >= line.length()')],
  demo=r'''
int main()
{
	std::stringstream s("00:00:01:00 , 00:00:02:00 ,x\n00:00:03:00 , 00:00:04:00 ,xy\n");
	sub::STLTextReader r(s);
	EXPECT(r.subtitles().size() == 2);
	return 0;
}
'''),
 dict(id='C07-centre-row', property='C07',
  needs='a line placed relative to the centre of the screen',
  breaks='the row is half a row too high, because the number of rows is odd',
  edits=[('src/stl_binary_writer.cc','vp = rint (line.vertical_position.proportional.get() * ROWS + (ROWS / 2.0));','vp = rint (line.vertical_position.proportional.get() * ROWS) + ROWS / 2;')],
  demo=r'''
int main()
{
	sub::RawSubtitle p;
	p.from = sub::Time::from_hms(0, 0, 1, 0);
	p.to = sub::Time::from_hms(0, 0, 2, 0);
	p.text = "x";
	p.vertical_position.proportional = 0.1;
	p.vertical_position.reference = sub::VERTICAL_CENTRE_OF_SCREEN;
	auto s = sub::collect<vector<sub::Subtitle>>(vector<sub::RawSubtitle>(1, p));
	sub::write_stl_binary(s, 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "140203", "140203", 0, "GBR", "", "", "", "x.stl");
	std::ifstream f("x.stl");
	sub::STLBinaryReader r(f);
	EXPECT(r.subtitles()[0].vertical_position.line.get() == 14);
	return 0;
}
'''),
 dict(id='C10-max-rate', property='C10',
  needs='adding a time at 30000/1001 to one at 25',
  breaks='the result is at the rate with the greater numerator, which need not be the finer one',
  edits=[('src/rational.cc','if (a.fraction() > b.fraction()) {','if (a.numerator > b.numerator) {')],
  demo=r'''
int main()
{
	auto a = sub::Time::from_hmsf(0, 0, 1, 7, sub::Rational(100, 1)), b = sub::Time::from_hmsf(0, 0, 1, 12, sub::Rational(2500, 100));
	a.add(b);
	EXPECT(a == sub::Time::from_hmsf(0, 0, 2, 55, sub::Rational(100, 1)));
	return 0;
}
'''),
 dict(id='C15-colour-memo', property='C15',
  needs='two threads reading colours of SSA files at the same time',
  breaks='the last colour converted is kept in static variables without any lock',
  edits=[('src/ssa_reader.cc','	auto const colour = strtoll(start, nullptr, 16);','''	/* The same colour is often used many times */
	static string last;
	static long long colour = 0;
	if (last != start) {
		colour = strtoll(start, nullptr, 16);
		last = start;
	}''')],
  demo=r'''
#include <thread>
#include <atomic>
int main()
{
	std::atomic<bool> bad(false);
	vector<std::thread> t;
	for (int n = 0; n < 4; ++n) {
		t.push_back(std::thread([&bad, n]() {
			char c[16];
			snprintf(c, sizeof(c), "&H%06X", n * 0x50);
			string const doc = string("[Script Info]\n[V4+ Styles]\nFormat: Name, PrimaryColour, BackColour\nStyle: A,") + c + ",&HFFFFFF\n[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,A,x\n";
			for (int i = 0; i < 20000 && !bad; ++i) {
				sub::SSAReader r(doc);
				auto s = r.subtitles();
				if (s.size() != 1 || int(s[0].colour.r * 255 + 0.5) != n * 0x50) bad = true;
			}
		}));
	}
	for (auto& i: t) i.join();
	EXPECT(!bad);
	return 0;
}
'''),
 dict(id='C17-styles', property='C17',
  needs='an SSA file read after another which defined a style that it uses but does not have',
  breaks='styles are kept from one file to the next',
  edits=[('src/ssa_reader.cc','	map<string, Style> styles;','	static thread_local map<string, Style> styles;')],
  demo=r'''
int main()
{
	string const events = "[Events]\nFormat: Start, End, Style, Text\nDialogue: 0:00:01.00,0:00:02.00,A,x\n";
	sub::SSAReader a(string("[Script Info]\n") + events);
	EXPECT(!a.subtitles()[0].bold);
	sub::SSAReader b(string("[Script Info]\n[V4+ Styles]\nFormat: Name, Bold\nStyle: A,-1\n") + events);
	EXPECT(b.subtitles()[0].bold);
	sub::SSAReader c(string("[Script Info]\n") + events);
	EXPECT(!c.subtitles()[0].bold);
	return 0;
}
'''),
 dict(id='C08-pushed-down', property='C08',
  needs='a line on the same row as the one before it (so that it is moved down), and another two rows or more further on',
  breaks='the row of the third line is too far down',
  edits=[('src/stl_binary_writer.cc','			last_vp = vp;','			last_vp = vertical_position (j);')],
  demo=r'''
int main()
{
	vector<sub::RawSubtitle> p;
	for (auto i: {4, 4, 8}) {
		sub::RawSubtitle s;
		s.from = sub::Time::from_hms(0, 0, 1, 0);
		s.to = sub::Time::from_hms(0, 0, 2, 0);
		s.text = "x";
		s.vertical_position.line = i;
		s.vertical_position.lines = 23;
		s.vertical_position.reference = sub::TOP_OF_SCREEN;
		p.push_back(s);
	}
	sub::Subtitle s(p[0]);
	s.lines.push_back(sub::Line(p[1]));
	s.lines.push_back(sub::Line(p[2]));
	sub::write_stl_binary({s}, 25, sub::LANGUAGE_ENGLISH, "", "", "", "", "", "", "140203", "140203", 0, "GBR", "", "", "", "x.stl");
	std::ifstream f("x.stl");
	sub::STLBinaryReader r(f);
	vector<int> rows;
	for (auto i: r.subtitles()) rows.push_back(i.vertical_position.line.get());
	EXPECT((rows == vector<int>{4, 5, 8}));
	return 0;
}
'''),
]
