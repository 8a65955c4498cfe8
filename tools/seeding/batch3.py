import runpy
WRITE = runpy.run_path('/tmp/seedtools/batch2.py')['WRITE']
SEEDS = [
 dict(id='C12-bom-alone', property='C12',
  needs='a text file supplied as a string which starts with a byte order mark on a line of its own',
  breaks='the byte order mark is taken for text when the file is given as a string but not when it is read from a FILE',
  edits=[('src/util.cc','		line->length() >= 3 &&','		line->length() > 3 &&')],
  demo=r'''
int main()
{
	string const s = "\xef\xbb\xbf\n1\n00:00:01,000 --> 00:00:02,000\nhello\n\n";
	{ std::ofstream f("x.srt"); f << s; }
	FILE* f = fopen("x.srt", "r");
	sub::SubripReader a(f);
	fclose(f);
	EXPECT(a.subtitles().size() == 1);
	try {
		sub::SubripReader b(s);
		EXPECT(b.subtitles().size() == 1);
	} catch (std::exception& e) {
		printf("error %s\n", e.what());
		return 1;
	}
	return 0;
}
'''),
 dict(id='C19-lower-bound', property='C19',
  needs='a code which is not in a table but comes before one that is',
  breaks='an unknown code is taken for the next one in the table rather than being rejected',
  edits=[('src/stl_binary_tables.cc','''	typename map<F, STLBinaryCode<E> >::const_iterator i = m.find (k);
	if (i == m.end ()) {''','''	/* The map is sorted so there is no need to look at it all */
	typename map<F, STLBinaryCode<E> >::const_iterator i = m.lower_bound (k);
	if (i == m.end ()) {''')],
  demo=r'''
int main()
{
	sub::STLBinaryTables t;
	for (auto c: {"3", "0G", "2C", "  "}) {
		try {
			t.language_file_to_enum(c);
			printf("language %s was accepted\n", c);
			return 1;
		} catch (sub::STLError&) {}
	}
	return 0;
}
'''),
 dict(id='C10-scale-float', property='C10',
  needs='a time of more than a few hours and milliseconds',
  breaks='scaling a time (even by 1) changes it because it is no longer done in double precision',
  edits=[('src/sub_time.cc','	double const s = Time::all_as_seconds() * f;','	auto const s = static_cast<float>(all_as_seconds()) * f;')],
  demo=r'''
int main()
{
	auto t = sub::Time::from_hms(0, 0, 1, 500);
	t.scale(2);
	EXPECT(t == sub::Time::from_hms(0, 0, 3, 0));
	t = sub::Time::from_hms(12, 34, 56, 501);
	t.scale(1);
	EXPECT(t == sub::Time::from_hms(12, 34, 56, 501));
	return 0;
}
'''),
 dict(id='C15-part-file', property='C15',
  needs='two threads which write different files in the same directory at the same time',
  breaks='each writes to the same temporary file, so that one may get the contents of the other or an error',
  edits=[('src/stl_binary_writer.cc','''	ofstream output (file_name.string().c_str());
''','''	/* Write to another file first so that there is never half a file with the right name */
	auto const temporary = file_name.parent_path() / ".libsub.part";
	ofstream output (temporary.string().c_str());
'''),('src/stl_binary_writer.cc','''		throw STLError (String::compose ("Could not write binary STL file %1", file_name.string()));
	}
''','''		throw STLError (String::compose ("Could not write binary STL file %1", file_name.string()));
	}

	boost::filesystem::rename (temporary, file_name);
''')],
  demo='#include <thread>\n#include <atomic>\n' + WRITE + r'''
int main()
{
	std::atomic<bool> bad{false};
	auto work = [&](int n) {
		vector<sub::RawSubtitle> r;
		for (int i = 0; i < 500; ++i) r.push_back(piece(string(100, 'a' + n), i * 2, i * 2 + 1, 3));
		auto s = collected(r);
		string const p = string(1, 'a' + n) + ".stl";
		for (int i = 0; i < 400 && !bad; ++i) {
			try {
				write(s, p);
			} catch (std::exception& e) { bad = true; }
			string const d = slurp(p);
			if (d.size() != 1024 + 500 * 128 || d.find(string(100, 'a' + n)) == string::npos) bad = true;
		}
	};
	vector<std::thread> t;
	for (int i = 0; i < 4; ++i) t.push_back(std::thread(work, i));
	for (auto& i: t) i.join();
	if (bad) printf("a file has the wrong contents\n");
	return bad;
}
'''),
 dict(id='C11-unstable', property='C11',
  needs='more than 16 pieces of text, some with the same start time',
  breaks='pieces with equal start times do not stay in order',
  edits=[('src/collect.h','	std::stable_sort (raw.begin(), raw.end());','	std::sort (raw.begin(), raw.end());')],
  demo=WRITE + r'''
int main()
{
	vector<sub::RawSubtitle> r;
	string want;
	for (int i = 0; i < 40; ++i) {
		string const t = string(1, 'a' + i % 26) + std::to_string(i);
		r.push_back(piece(t, 1, 2, i));
		want += t;
	}
	auto s = collected(r);
	EXPECT(s.size() == 1);
	string got;
	for (auto& l: s[0].lines) for (auto& b: l.blocks) got += b.text;
	EXPECT(got == want);
	return 0;
}
'''),
 dict(id='C09-held-mark', property='C09',
  needs='text which ends with a diacritical mark, followed by another conversion',
  breaks='the mark is applied to the first letter of the next text that is converted',
  edits=[('src/iso6937.cc','	boost::optional<unsigned char> diacritical;','	static thread_local boost::optional<unsigned char> diacritical;')],
  demo=r'''
int main()
{
	EXPECT(sub::iso6937_to_utf16("ab\xc2") == L"ab");
	EXPECT(sub::iso6937_to_utf16("e") == L"e");
	return 0;
}
'''),
 dict(id='C06-colour-held', property='C06',
  needs='a subtitle with a colour on one row and another row after it',
  breaks='a colour stays in force on the rows after the one that it is on',
  edits=[('src/stl_binary_reader.cc','''		for (size_t j = 0; j < lines.size(); ++j) {
			RawSubtitle sub;
''','''		RawSubtitle sub;
		for (size_t j = 0; j < lines.size(); ++j) {
''')],
  demo=WRITE + r'''
int main()
{
	auto s = collected({piece("XredY", 1, 2, 3), piece("plain", 1, 2, 4)});
	write(s, "x.stl");
	string d = slurp("x.stl");
	size_t const at = d.find("XredY");
	EXPECT(at != string::npos);
	d[at] = 1;
	{ std::ofstream f("y.stl"); f << d; }
	auto r = sub::reader_factory("y.stl")->subtitles();
	bool red = false;
	for (auto& i: r) {
		if (i.text == "redY") red = i.colour == sub::Colour(1, 0, 0);
		if (i.text == "plain") EXPECT(i.colour == sub::Colour(1, 1, 1));
	}
	EXPECT(red);
	return 0;
}
'''),
 dict(id='C02-blank-looking', property='C02',
  needs='a line of spaces in the text of a cue',
  breaks='a line which has only spaces ends the cue so that the text after it is lost',
  edits=[('src/web_vtt_reader.cc','''		case State::SUBTITLE:
			if (line->empty()) {''','''		case State::SUBTITLE:
			if (empty_or_white_space(*line)) {''')],
  demo=r'''
int main()
{
	sub::WebVTTReader r(string("WEBVTT\n\n00:00:01.000 --> 00:00:02.000\na\n  \nb\n\n00:00:03.000 --> 00:00:04.000\nc\n"));
	string t;
	for (auto& i: r.subtitles()) t += i.text + "|";
	EXPECT(t == "a|  |b|c|");
	return 0;
}
'''),
 dict(id='C07-longest', property='C07',
  needs='a subtitle of two or more lines',
  breaks='the maximum number of characters in a row counts all of the lines of a subtitle',
  edits=[('src/stl_binary_writer.cc','''		for (auto const& j: i.lines) {
			int t = 0;
''','''		int t = 0;
		for (auto const& j: i.lines) {
''')],
  demo=WRITE + r'''
int main()
{
	auto s = collected({piece("twelve chars", 1, 2, 3), piece("more", 1, 2, 4)});
	write(s, "x.stl");
	EXPECT(slurp("x.stl").substr(251, 2) == "12");
	return 0;
}
'''),
 dict(id='C21-near', property='C21',
  needs='horizontal positions which are to the left and right of each other',
  breaks='positions are the same if the first is anywhere to the left of the second',
  edits=[('src/horizontal_position.cc','fabs(proportional - other.proportional) < (1.0 / 1998)','(proportional - other.proportional) < (1.0 / 1998)')],
  demo=r'''
int main()
{
	sub::HorizontalPosition a, b;
	a.proportional = 0.1;
	b.proportional = 0.5;
	EXPECT(!(b == a));
	EXPECT(!(a == b));
	return 0;
}
'''),
 dict(id='C03-comment-colon', property='C03',
  needs='an event whose style name has a * before it and which is not the first of them',
  breaks='looking up an unknown style makes one with built-in values which hides the Default style from later events',
  edits=[('src/ssa_reader.cc','''						if (styles.find(event[i]) != styles.end()) {
							style = styles[event[i]];''','''						if (!styles[event[i]].name.empty() || styles.count(event[i]) > 1) {
							style = styles[event[i]];''')],
  demo=r'''
int main() { return 0; }
'''),
]
SEEDS.pop()
