/* C22: dump() and the dumpsubs tool */
#include "source.h"
#include "stl_model.h"
#include "collect.h"
#include "subtitle.h"
#include "util.h"
#include <fcntl.h>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace src;

class Fake : public sub::Reader
{
public:
	Fake(const vector<sub::RawSubtitle>& s, const std::map<string, string>& m) : _m(m) { _subs = s; }
	std::map<string, string> metadata() const override { return _m; }
private:
	std::map<string, string> _m;
};

static string number(double d)
{
	std::ostringstream s;
	s.imbue(std::locale::classic());
	s << (float) d;
	return s.str();
}

/** Look for the text of a line, with its tags, at p in the output.
 *  Tags may only come between blocks; each must change something, and characters must have just the tags of their blocks.
 */
static bool styled(const string& out, size_t p, const vector<sub::Block>& b, size_t i, int state, int tags, size_t& end)
{
	int const target = i < b.size() ? (b[i].italic ? 1 : 0) | (b[i].underline ? 2 : 0) : 0;
	if (i == b.size()) {
		if (state == 0 && p < out.size() && out[p] == '\n') { end = p + 1; return true; }
	} else {
		if (state == target && out.compare(p, b[i].text.size(), b[i].text) == 0 && styled(out, p + b[i].text.size(), b, i + 1, state, 0, end)) return true;
		/* a block with nothing in it need not have tags */
		if (b[i].text.empty() && styled(out, p, b, i + 1, state, tags, end)) return true;
	}
	if (tags == 4) return false;
	static struct { const char* tag; int bit; bool on; } const all[] = {{"<i>", 1, true}, {"</i>", 1, false}, {"<u>", 2, true}, {"</u>", 2, false}};
	for (auto& t: all) {
		if (((state & t.bit) != 0) == t.on) continue;
		if (out.compare(p, strlen(t.tag), t.tag) == 0 && styled(out, p + strlen(t.tag), b, i, state ^ t.bit, tags + 1, end)) return true;
	}
	return false;
}

/** Check what was printed; times are as the given function says */
static void check(mc::Ctx& c, const string& out, const std::map<string, string>& metadata, const vector<sub::Subtitle>& subs, const vector<string>& times)
{
	size_t p = 0;
	auto expect = [&](const string& s, const char* key) {
		c.check(out.compare(p, s.size(), s) == 0, key, "after\n" + out.substr(0, p) + "\ncomes\n" + out.substr(p, 500) + "\nrather than\n" + s);
		p += s.size();
		c.step();
	};
	for (auto& i: metadata) expect(i.first + ": " + i.second + "\n", "metadata");
	int n = 0;
	for (auto& s: subs) {
		expect(mc::format("Subtitle %d at ", n) + times[2 * n] + " -> " + times[2 * n + 1] + "\n", "times");
		for (auto& l: s.lines) {
			string t = "\t";
			auto& v = l.vertical_position;
			if (v.proportional) t += number(*v.proportional) + " of screen";
			else if (v.line && v.lines) t += mc::format("%d lines of %d", *v.line, *v.lines);
			if (v.reference) {
				switch (*v.reference) {
				case sub::TOP_OF_SCREEN: t += " from top"; break;
				case sub::VERTICAL_CENTRE_OF_SCREEN: t += " from centre"; break;
				case sub::BOTTOM_OF_SCREEN: t += " from bottom"; break;
				case sub::TOP_OF_SUBTITLE: t += " from top of subtitle"; break;
				}
			}
			expect(t + "\t", "position");
			size_t end = p;
			string text;
			for (auto& b: l.blocks) text += mc::format("[%s%s]", b.italic ? "i" : "", b.underline ? "u" : "") + b.text;
			c.check(styled(out, p, l.blocks, 0, 0, 0, end), "text", "after\n" + out.substr(0, p) + "\ncomes\n" + out.substr(p, 500) + "\nrather than\n" + text);
			p = end;
		}
		++n;
	}
	c.check(p == out.size(), "end", "there is more than there should be: " + out.substr(p));
	c.state(mc::hash(out));
	c.outcome(mc::hash(out));
	c.compared();
}

static string dump(const std::shared_ptr<const sub::Reader>& r)
{
	std::ostringstream s;
	sub::dump(r, s);
	return s.str();
}

static string show(const sub::Time& t)
{
	std::ostringstream s;
	s << t;
	return s.str();
}

/** As it is in the time's own terms; collecting does not change times */
static void check_reader(mc::Ctx& c, const std::shared_ptr<const sub::Reader>& r, const string& out)
{
	auto const subs = sub::collect<vector<sub::Subtitle>>(r->subtitles());
	vector<string> times;
	for (auto& s: subs) { times.push_back(show(s.from)); times.push_back(show(s.to)); }
	check(c, out, r->metadata(), subs, times);
}

static string time(int h, int m, int s, int f, int num, int den)
{
	string t = mc::format("%02d:%02d:%02d:%d", h, m, s, f);
	return num ? t + mc::format(" @ %d/%d", num, den) : t;
}

static sub::RawSubtitle raw(const string& text, int second, int line)
{
	sub::RawSubtitle r;
	r.text = text;
	r.from = sub::Time::from_hms(0, second / 60, second % 60, 0);
	r.to = sub::Time::from_hms(0, second / 60, second % 60, 500);
	r.vertical_position.line = line;
	r.vertical_position.reference = sub::TOP_OF_SUBTITLE;
	return r;
}

static void run(mc::Ctx& c, const vector<sub::RawSubtitle>& s, const std::map<string, string>& m = {})
{
	string o;
	for (auto& i: s) o += show_all(i);
	c.input("dump " + o);
	auto r = std::make_shared<Fake>(s, m);
	check_reader(c, r, dump(r));
}

/** Every sequence of blocks in a line or two */
static void styles(mc::Ctx& c, int max)
{
	static vector<string> const texts = {"a", "", " ", "<i>", "</u>"};
	int const n = 1 + c.pick(max);
	struct B { int style, text; bool nl; };
	vector<B> b;
	for (int i = 0; i < n; ++i) { B x; x.style = c.pick(8); x.text = c.pick(i ? 3 : 5); x.nl = i && c.pick(2); b.push_back(x); }
	if (!c.go()) return;
	vector<sub::RawSubtitle> s;
	int line = 0;
	for (auto& x: b) {
		if (x.nl) ++line;
		auto r = raw(texts[x.text], 1, line);
		r.italic = x.style & 1;
		r.underline = x.style & 2;
		r.bold = x.style & 4;
		s.push_back(r);
	}
	run(c, s);
}

static void positions(mc::Ctx& c)
{
	static vector<float> const props = {-1, 0, 0.1f, 0.5f, 1.0f / 3, 1, 1.25f, 1e-7f, 0.123456789f};
	static vector<int> const lines = {-100, 0, 1, 7, 23, 1000, -1}, heights = {-100, 1, 23, 100, 1000};
	vector<sub::RawSubtitle> s;
	int const n = 1 + c.pick(2);
	for (int i = 0; i < n; ++i) {
		auto r = raw("x", 1 + i, 0);
		auto& v = r.vertical_position;
		v = sub::VerticalPosition();
		float const p = i ? c.devof(props) : c.of(props);
		int const l = i ? c.devof(lines) : c.of(lines), h = i ? c.devof(heights) : c.of(heights), ref = i ? c.dev(5) : c.pick(5);
		if (p >= 0) v.proportional = p;
		if (l != -100) v.line = l;
		if (h != -100) v.lines = h;
		if (ref) v.reference = (sub::VerticalReference) (ref - 1);
		s.push_back(r);
	}
	if (!c.go()) return;
	run(c, s);
}

/** Every sequence of pieces in place and time, and metadata */
static void structure(mc::Ctx& c, int max)
{
	static vector<std::map<string, string>> const metas = {{}, {{"a", "b"}}, {{"", ""}, {"Title", "x: y"}, {"a", "\xc3\xa9"}, {"z", "100%"}}};
	int const n = c.pick(max + 1);
	auto& m = c.of(metas);
	vector<sub::RawSubtitle> s;
	for (int i = 0; i < n; ++i) {
		int const k = c.pick(12);
		auto r = raw(mc::format("t%d", i), 1 + k / 3 % 2, k % 3);
		r.italic = k / 6;
		s.push_back(r);
	}
	if (!c.go()) return;
	run(c, s, m);
}

static void times(mc::Ctx& c)
{
	static vector<std::pair<int, int>> const rates = {{0, 0}, {25, 1}, {24, 1}, {1000, 1}, {30, 1}, {24000, 1001}, {30000, 1001}, {1, 1}};
	int const field = c.pick(4);
	auto& r = c.of(rates);
	static int const sizes[] = {200, 60, 60, 1000};
	int const v = c.pick(sizes[field]);
	int const which = c.pick(2);
	if (!c.go()) return;
	if (field == 3 && r.first && v >= (r.first + r.second - 1) / r.second) return;
	int t[4] = {1, 2, 3, 0}, o[4] = {11, 12, 13, 0};
	t[field] = v;
	auto make = [&](int* t) { return r.first ? sub::Time::from_hmsf(t[0], t[1], t[2], t[3], sub::Rational(r.first, r.second)) : sub::Time::from_hmsf(t[0], t[1], t[2], t[3]); };
	auto say = [&](int* t) { return time(t[0], t[1], t[2], t[3], r.first, r.second); };
	auto x = raw("x", 0, 0);
	x.from = make(which ? o : t);
	x.to = make(which ? t : o);
	c.input("dump " + say(which ? o : t) + " -> " + say(which ? t : o));
	auto f = std::make_shared<Fake>(vector<sub::RawSubtitle>{x}, std::map<string, string>());
	check(c, dump(f), {}, sub::collect<vector<sub::Subtitle>>(f->subtitles()), {say(which ? o : t), say(which ? t : o)});
}

static void numbers(mc::Ctx& c)
{
	int const n = c.pick(c.thorough() ? 2000 : 300), lines = c.pick(3);
	if (!c.go()) return;
	vector<sub::RawSubtitle> s;
	for (int i = 0; i < n; ++i) for (int j = 0; j <= lines; ++j) s.push_back(raw(mc::format("%d.%d", i, j), i, j));
	c.input(mc::format("dump %d subtitles of %d lines", n, lines + 1));
	auto r = std::make_shared<Fake>(s, std::map<string, string>());
	check_reader(c, r, dump(r));
}

struct File { string name, content; bool dir; };

static string binary(int k)
{
	vector<stl::Tti> t(2);
	t[0].text = k ? "\x80plain\x81\x82under\x83\x8a\x80two" : "one";
	t[1].text = "x\xc8" "ay";
	t[1].in.h = t[1].out.h = 12;
	t[1].sn = 1;
	return stl::file(stl::Gsi(), t);
}

/** Contents of every kind of file, from pieces */
static void readers(mc::Ctx& c, int max)
{
	Kind const k = (Kind) c.pick(5);
	static vector<string> const docs[5] = {
		{"1\n00:00:01,000 --> 00:00:02,500\nplain\n\n", "2\n01:02:03,004 --> 05:06:07,089\n<i>a<u>b</i>c</u>d\ne\n\n", "3\n00:01:00,000 --> 00:02:00,000\n{\\an8}f<b>g</b>\n<u><i>h\n\n", "4\n00:00:09,999 --> 00:00:10,000\n\n"},
		{"Dialogue: 0:00:01.00,0:00:02.50,a\n", "Dialogue: 0:00:03.00,0:00:04.50,{\\i1}a{\\u1}b{\\i0}c\\Nd\n", "Dialogue: 1:00:03.00,1:00:04.50,{\\pos(10,20)}x{\\an5}y\n", "; x\n"},
		{"00:00:01.000 --> 00:00:02.500\nplain\n\n", "id\n01:02:03.004 --> 05:06:07.089 line:0\n<i>a</i>\nb\n\n", "NOTE\nx\n\n", "00:00:05.000 --> 00:00:06.000\n\n"},
		{"00:00:01:00 , 00:00:02:12 , plain\n", "$VertAlign = Top\n", "01:02:03:04 , 05:06:07:08 , ^Ia^Ub^Ic|d^Ue\n", "// x\n"},
		{"", "", "", ""},
	};
	int const n = c.pick(max + 1);
	vector<int> w;
	for (int i = 0; i < n; ++i) w.push_back(c.pick(4));
	if (!c.go()) return;
	string d = k == VTT ? "WEBVTT\n\n" : k == SSA ? "[Script Info]\nPlayResX: 100\nPlayResY: 200\nTitle: x\n[Events]\nFormat: Start,End,Text\n" : "";
	if (k == STL_BINARY) {
		vector<stl::Tti> t;
		for (int i: w) {
			stl::Tti x;
			x.sn = t.size();
			x.in.m = x.out.m = t.size();
			x.vp = 1 + 7 * i;
			x.text = i == 0 ? "a\x80" "b\x81" : i == 1 ? "\x80\x82q\x83r\x8as" : i == 2 ? "\x01x" : "";
			t.push_back(x);
		}
		d = stl::file(stl::Gsi(), t);
	} else {
		for (int i: w) d += docs[k][i];
	}
	c.input(string(kind_names[k]) + ": " + d);
	auto r = from_string(k, d);
	check_reader(c, r, dump(r));
}

static string tool()
{
	const char* t = getenv("VERIF_DUMPSUBS");
	if (!t) { fprintf(stderr, "VERIF_DUMPSUBS is not set\n"); _exit(2); }
	return t;
}

static string slurp(const string& p)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

/** The dumpsubs tool: run in a directory containing some files */
static void command(mc::Ctx& c, int max)
{
	struct F { const char* name; int kind; };    // kind: a reader, -1 not supported, -2 not there, -3 malformed, -4 not stated
	static F const files[] = {
		{"good.srt", SUBRIP}, {"UPPER.SRT", SUBRIP}, {"a b.Srt", SUBRIP}, {"text.stl", STL_TEXT}, {"binary.stl", STL_BINARY}, {"empty.srt", SUBRIP}, {"empty.stl", STL_TEXT}, {"sub/good.srt", SUBRIP}, {"./good.srt", SUBRIP},
		{"bad.srt", -3}, {"bad.stl", -4}, {"good.txt", -1}, {"good", -1}, {"good.srt.txt", -1}, {"missing.srt", -2}, {"missing.stl", -2}, {"missing", -2}, {"", -2}, {"sub", -1}, {"sub/missing.srt", -2}, {"good.srt/x.srt", -2}, {"-x.srt", SUBRIP}, {"srt", -1}, {"\xc3\xa9.srt", SUBRIP},
	};
	static vector<string> const options = {"--", "-h", "--help", "--he", "-x", "--bogus", "-", "-hh", "--help=1", "-xh"};
	static const int nf = sizeof files / sizeof files[0];
	static string const srt = "1\n00:00:01,000 --> 00:00:02,500\n<i>one</i>\ntwo\n", text = "00:00:01:00 , 00:00:02:12 , plain|^Iitalic^I\n";
	static string dir;
	int const n = c.pick(max + 1);
	vector<int> a;
	for (int i = 0; i < n; ++i) a.push_back(c.pick(nf + options.size()));
	if (!c.go()) return;
	if (dir.empty()) {
		dir = mc::scratch() + mc::format("/tool.%d", getpid());
		mkdir(dir.c_str(), 0777);
		mkdir((dir + "/sub").c_str(), 0777);
		for (auto& f: files) {
			if (f.kind == -2 || string(f.name) == "sub") continue;
			std::ofstream o(dir + "/" + f.name, std::ios::binary);
			string const n = f.name;
			o << (n.find("empty") == 0 ? "" : n == "text.stl" ? text : n == "binary.stl" ? binary(1) : n == "bad.srt" ? "1\nx\n" : n == "bad.stl" ? "$FontSize = x\nnonsense nonsense\n" : srt);
		}
	}
	/* What it is asked to do, as getopt sees it */
	vector<string> argv = {"dumpsubs"};
	vector<int> operands;
	bool help = false, unknown = false, dashes = false;
	for (int i: a) {
		string const s = i < nf ? files[i].name : options[i - nf];
		argv.push_back(s);
		if (dashes || s.empty() || s[0] != '-' || s == "-") { operands.push_back(i < nf ? i : -1); continue; }
		if (s == "--") dashes = true;
		else if (s == "-h" || s == "--help" || s == "--he" || s == "-hh") { help = help || !unknown; if (unknown) return; }
		else if (s == "-xh" || help) { unknown = true; if (help) break; }
		else unknown = true;
	}
	if (help && unknown) return;
	string line;
	for (auto& s: argv) line += " '" + s + "'";
	c.input(line);
	string const out = dir + "/stdout", err = dir + "/stderr";
	pid_t const p = fork();
	if (p == 0) {
		struct rlimit const none = {0, 0};
		setrlimit(RLIMIT_CORE, &none);
		if (chdir(dir.c_str())) _exit(99);
		int const o = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0666), e = open("stderr", O_WRONLY | O_CREAT | O_TRUNC, 0666), in = open("/dev/null", O_RDONLY);
		dup2(in, 0);
		dup2(o, 1);
		dup2(e, 2);
		vector<char*> v;
		for (auto& s: argv) v.push_back(const_cast<char*>(s.c_str()));
		v.push_back(nullptr);
		execv(tool().c_str(), v.data());
		_exit(99);
	}
	int status = 0;
	waitpid(p, &status, 0);
	string const printed = slurp(out), said = slurp(err);
	bool const ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
	string const result = mc::format(" status is %x,", status) + " stdout is " + printed + "\nstderr is " + said;
	c.check(!(WIFEXITED(status) && WEXITSTATUS(status) == 99), "cannot run", result);
	c.step();
	c.state(mc::hash(printed + "|" + said));
	c.outcome(mc::hash(printed, ok));
	if (help) {
		c.check(ok && !(printed + said).empty(), "help", "help was not given:" + result);
	} else if (unknown || operands.size() != 1) {
		c.check(!ok && !said.empty(), "usage", "wrong usage was not reported:" + result);
	} else {
		int const i = operands[0];
		int const k = i < 0 ? -2 : files[i].kind;
		if (k == -1 || k == -2 || k == -3) {
			c.check(!ok && !said.empty(), k == -1 ? "unsupported" : k == -2 ? "missing" : "malformed", "the file's problem was not reported:" + result);
		} else if (k >= 0) {
			c.check(ok, "status", "dumpsubs failed:" + result);
			auto r = from_string((Kind) k, slurp(dir + "/" + files[i].name));
			check_reader(c, r, printed);
			return;
		}
	}
	c.compared();
}

/** The tool when what it prints cannot all be written */
static void output(mc::Ctx& c)
{
	static vector<std::pair<string, string>> const files = {
		{"in.srt", "1\n00:00:01,000 --> 00:00:02,500\n<i>one</i>\ntwo\n"},
		{"text.stl", "00:00:01:00 , 00:00:02:12 , plain|^Iitalic^I\n"},
		{"binary.stl", binary(2)},
		{"empty.srt", ""},
		/* more than any buffer */
		{"long.srt", [] { string s; for (int i = 0; i < 400; ++i) s += mc::format("%d\n00:%02d:%02d,000 --> 00:%02d:%02d,500\nsome text\n\n", i + 1, i / 60, i % 60, i / 60, i % 60); return s; }()}
	};
	static string dir;
	static std::map<int, string> whole;
	int const f = c.pick(files.size());
	int const fault = c.pick(3);    // too long for the file, device full, closed
	bool const big = f == 4;
	int const steps = fault ? 1 : c.pick(big ? 200 : 700);
	if (!c.go()) return;
	if (dir.empty()) {
		dir = mc::scratch() + mc::format("/output.%d", getpid());
		mkdir(dir.c_str(), 0777);
		for (auto& i: files) std::ofstream(dir + "/" + i.first, std::ios::binary) << i.second;
	}
	auto run = [&](const string& name, long limit, int fault, string& said) {
		int e[2];
		if (pipe(e)) _exit(2);
		pid_t const p = fork();
		if (p == 0) {
			signal(SIGXFSZ, SIG_IGN);
			struct rlimit r = {0, 0};
			setrlimit(RLIMIT_CORE, &r);
			if (chdir(dir.c_str())) _exit(99);
			int const o = fault == 1 ? open("/dev/full", O_WRONLY) : open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0666);
			dup2(o, 1);
			dup2(e[1], 2);
			close(o);
			close(e[0]);
			close(e[1]);
			if (fault == 2) close(1);
			if (limit >= 0) {
				r.rlim_cur = r.rlim_max = limit;
				setrlimit(RLIMIT_FSIZE, &r);
			}
			execl(tool().c_str(), "dumpsubs", name.c_str(), (char*) nullptr);
			_exit(99);
		}
		close(e[1]);
		char b[4096];
		ssize_t n;
		while ((n = read(e[0], b, sizeof b)) > 0) said.append(b, n);
		close(e[0]);
		int status = 0;
		waitpid(p, &status, 0);
		return status;
	};
	string said;
	if (!whole.count(f)) {
		int const s = run(files[f].first, -1, 0, said);
		whole[f] = slurp(dir + "/stdout");
		c.check(s == 0 && said.empty(), "status", mc::format("dumpsubs %s: status is %x, stderr is ", files[f].first.c_str(), s) + said);
	}
	long const length = whole[f].size();
	long const limit = big ? (steps < 100 ? steps * (length / 100) : length - 150 + steps) : steps;
	if (fault == 0 && limit > length + 3) return;
	c.input(files[f].first + (fault == 0 ? mc::format(", output limited to %ld of %ld bytes", limit, length) : fault == 1 ? ", output device full" : ", output closed"));
	int const status = run(files[f].first, fault ? -1 : limit, fault, said);
	bool const ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
	string const result = mc::format(": status is %x, stderr is ", status) + said;
	c.check(!(WIFEXITED(status) && WEXITSTATUS(status) == 99), "cannot run", result);
	bool const fits = length == 0 || (fault == 0 && limit >= length);
	if (fits) {
		c.check(ok, "status", "dumpsubs failed although everything could be written" + result);
		if (fault == 0) c.check(slurp(dir + "/stdout") == whole[f], "output", "the output differs");
	} else {
		c.check(!ok && !said.empty(), "output-failure", "failure to write the output was not reported" + result);
	}
	c.state(mc::hash(mc::format("%d %d %ld", f, fault, std::min(limit, length))));
	c.outcome(mc::hash(said, ok));
	c.step();
	c.compared();
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C22";
	return mc::main(argc, argv, o, {
		{"styles", 0, -1, [](mc::Ctx& c) { styles(c, 4); }},
		{"styles-5", -1, 0, [](mc::Ctx& c) { styles(c, 5); }},
		{"positions", 1, 2, positions},
		{"structure", 0, -1, [](mc::Ctx& c) { structure(c, 5); }},
		{"structure-6", -1, 0, [](mc::Ctx& c) { structure(c, 6); }},
		{"times", 0, 0, times},
		{"numbers", 0, 0, numbers},
		{"readers", 0, 0, [](mc::Ctx& c) { readers(c, c.thorough() ? 7 : 5); }},
		{"command", 0, 0, [](mc::Ctx& c) { command(c, c.thorough() ? 3 : 2); }},
		{"output", 0, 0, output},
	}, "every sequence of up to 4 (thorough 5) blocks of every style with line ends anywhere, every vertical position from the lists in checks/c22.cc, every sequence of up to 5 (6) pieces at 2 times, 3 lines and 2 styles, every value of each time component at 8 rates, 0 to 300 (2000) subtitles, every document of up to 5 (7) parts in 5 formats, and every command line of up to 2 (3) of 34 arguments given to the real dumpsubs, and output which fails after any number of bytes",
	{"italic and underline tags may overlap", "what is printed for an unusual file type (e.g. a directory called x.srt) is not stated"});
}
