/* C17: histories of operations in one process, each explored from a process which has never used the library */
#include "alloc.h"
#include "operations.h"
#include <cfenv>
#include <csignal>
#include <sys/stat.h>
#include <sys/wait.h>

using namespace op;

extern char** environ;

/** State of the process which nothing should change */
static string process()
{
	/* Not what anyone would set them to */
	static bool const unusual = []() { umask(027); std::cout.fill('#'); std::cout.precision(9); return true; }();
	(void) unusual;
	string o = setlocale(LC_ALL, nullptr);
	o += mc::format(" %d umask ", (int) (std::locale() == std::locale::classic()));
	mode_t const u = umask(0);
	umask(u);
	o += mc::format("%o round %d fill %d flags %x precision %d width %d ", u, fegetround(), std::cout.fill(), (unsigned) std::cout.flags(), (int) std::cout.precision(), (int) std::cout.width());
	o += mc::format("state %d exceptions %d descriptors %d cwd ", (int) std::cout.rdstate(), (int) std::cout.exceptions(), descriptors());
	char d[4096];
	o += getcwd(d, sizeof(d)) ? d : "?";
	sigset_t s;
	sigprocmask(SIG_SETMASK, nullptr, &s);
	for (int i = 1; i < 32; ++i) {
		struct sigaction a;
		sigaction(i, nullptr, &a);
		o += mc::format(" %d%d", sigismember(&s, i), a.sa_handler == SIG_DFL);
	}
	uint64_t h = 0;
	for (char** e = environ; *e; ++e) h = mc::mix(h, mc::hash(*e));
	return o + mc::format(" environment %llx", (unsigned long long) h);
}

/** Do something, and describe it including any warnings */
static Held perform(size_t n)
{
	std::stringbuf b;
	auto const before = std::cout.rdbuf(&b);
	Held h = all()[n].run(0);
	std::cout.rdbuf(before);
	h.result += "\nwarnings: " + b.str();
	return h;
}

/** Do something in a new process, which has (like its parent) never used the library. @return what it says, with the way it ended if it did not end well */
static string apart(const std::function<string ()>& f)
{
	int p[2];
	if (pipe(p)) abort();
	fflush(stdout);
	pid_t const child = fork();
	if (child < 0) { perror("fork"); abort(); }
	if (child == 0) {
		close(p[0]);
		alarm(100);
		string const s = f();
		size_t done = 0;
		while (done < s.size()) {
			ssize_t const n = write(p[1], s.data() + done, s.size() - done);
			if (n <= 0) break;
			done += n;
		}
		_exit(0);
	}
	close(p[1]);
	string s;
	char b[65536];
	ssize_t n;
	while ((n = read(p[0], b, sizeof(b))) > 0) s.append(b, n);
	close(p[0]);
	int st = 0;
	while (waitpid(child, &st, 0) < 0) {}
	if (WIFSIGNALED(st)) s += mc::format("\nCRASH with signal %d", WTERMSIG(st));
	else if (WEXITSTATUS(st)) s += mc::format("\nEXIT with %d", WEXITSTATUS(st));
	return s;
}

/** What each operation gives when it is the first thing that a process does */
static vector<string> const& alone()
{
	static vector<string> r;
	if (r.empty()) {
		string const d = mc::scratch() + mc::format("/h.%d", (int) getpid());
		mkdir(d.c_str(), 0777);
		if (chdir(d.c_str())) { perror(d.c_str()); abort(); }
		for (size_t i = 0; i < all().size(); ++i) r.push_back(apart([&]() { return perform(i).result; }));
	}
	return r;
}

static string clip(const string& s) { return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }

/** Do some things and say what was wrong, if anything */
static string history(const vector<size_t>& s)
{
	vector<Held> held;
	string const state = process();
	for (size_t i = 0; i < s.size(); ++i) {
		held.push_back(perform(s[i]));
		if (held.back().result != alone()[s[i]]) return mc::format("differs: step %d (", (int) i + 1) + all()[s[i]].name + ") gives\n" + clip(held.back().result) + "\nbut alone it gives\n" + clip(alone()[s[i]]);
		if (process() != state) return "process: " + all()[s[i]].name + " changes the state of the process from\n" + state + "\nto\n" + process();
	}
	/* Nothing that was made before has changed */
	for (size_t i = 0; i < s.size(); ++i) {
		if (!held[i].again) continue;
		string const a = held[i].again();
		if (held[i].result.compare(0, a.size(), a) != 0) return mc::format("changed: what step %d (", (int) i + 1) + all()[s[i]].name + ") gave is afterwards\n" + clip(a) + "\nbut was\n" + clip(held[i].result);
	}
	return "";
}

static void run(mc::Ctx& c, const vector<size_t>& s, const string& what, const std::function<string ()>& f, int steps)
{
	alone();
	string in = what;
	for (size_t j = 0; j < s.size(); ++j) in += (j ? "; " : "") + all()[s[j]].name;
	c.input(in);
	string const r = apart(f);
	c.step(steps);
	uint64_t h = mc::hash(what);
	for (size_t i: s) {
		h = mc::mix(h, i);
		c.state(h);
		c.outcome(mc::hash(alone()[i]));
	}
	if (!r.empty()) {
		size_t const colon = r.find(':');
		c.fail(r.find("\nCRASH") != string::npos || r.find("\nEXIT") != string::npos ? "crash" : r.substr(0, colon), r);
	}
	c.compared();
}

static void sequences(mc::Ctx& c, int n, int stride)
{
	/* for longer sequences, a selection of the operations */
	size_t const total = (all().size() + stride - 1) / stride;
	vector<size_t> s;
	for (int i = 0; i < n; ++i) s.push_back(c.pick(total) * stride);
	if (!c.go()) return;
	run(c, s, "", [&]() { return history(s); }, n);
}

/** Something done many times, then another thing */
static void repeats(mc::Ctx& c, const vector<int>& times)
{
	size_t const a = c.pick(all().size()), b = c.pick(all().size());
	int const n = c.of(times);
	if (!c.go()) return;
	run(c, {a, b}, mc::format("%d times the first of: ", n), [&]() {
		vector<size_t> s(n, a);
		s.push_back(b);
		s.push_back(a);
		return history(s);
	}, n + 2);
}

/** Everything, in order, round and round, starting anywhere and with any stride */
static void rounds(mc::Ctx& c)
{
	size_t const start = c.pick(all().size()), stride = 1 + c.pick(c.thorough() ? all().size() - 1 : 23);
	if (!c.go()) return;
	vector<size_t> s;
	for (size_t i = 0; i < all().size(); ++i) s.push_back((start + i * stride) % all().size());
	run(c, {start}, mc::format("everything, %d apart, starting with ", (int) stride), [&]() { return history(s); }, s.size());
}

/** An allocation fails in something, then everything else is done */
static void failures(mc::Ctx& c)
{
	size_t const a = c.pick(all().size());
	int const part = c.pick(16), from = c.pick(2);
	if (!c.go()) return;
	alone();
	/* how many allocations are there? */
	int const total = atoi(apart([&]() {
		count = 0;
		fail_at = 1 << 30;
		perform(a);
		fail_at = -1;
		return mc::format("%ld", count);
	}).c_str());
	int const step = c.thorough() ? 1 : std::max(1, total / (from ? 25 : 100));
	for (int n = part * step; n < total; n += 16 * step) {
		run(c, {a}, mc::format("allocation %d fails%s in: ", n, from ? " after everything has been done" : ""), [&]() {
			if (from) for (size_t i = 0; i < all().size(); ++i) perform(i);
			string const state = process();
			/* the operation itself may fail, but may not give something else */
			std::stringbuf b;
			auto const before = std::cout.rdbuf(&b);
			count = 0;
			fail_at = n;
			try {
				all()[a].run(0);
			} catch (std::exception&) {
			}
			fail_at = -1;
			std::cout.rdbuf(before);
			std::cout.clear();
			if (process() != state) return "process: it changes the state of the process from\n" + state + "\nto\n" + process();
			vector<size_t> s;
			s.push_back(a);
			for (size_t i = 0; i < all().size(); ++i) s.push_back(i);
			return history(s);
		}, all().size() + 2);
	}
}

/** One reader, asked questions in any order, copied and assigned */
static void queries(mc::Ctx& c, int max)
{
	static vector<size_t> readers;
	int const k = c.pick(5), d = c.pick(2);
	int const n = 1 + c.pick(max);
	vector<int> q;
	for (int i = 0; i < n; ++i) q.push_back(c.pick(8));
	if (!c.go()) return;
	static string const docs[5][2] = {
		{"1\n00:00:01,000 --> 00:00:02,500\n<i>one</i>\ntwo\n\n2\n00:00:01,000 --> 00:00:02,500\nthree\n", ""},
		{styles() + "Dialogue: 0:00:03.00,0:00:04.00,Red,0,0,0,a{\\i0}b\\Nd\nDialogue: 0:00:01.00,0:00:02.00,Default,5,6,7,e\n", "[Events]\nFormat: Start, End, Text\nDialogue: 0:00:03.00,0:00:04.00,x\n"},
		{"WEBVTT\n\n00:00:01.000 --> 00:00:02.500\na\nb\n", "WEBVTT\n"},
		{"$Bold=True\n00:00:01:00,00:00:02:12,a|^Ib^I\n", "00:00:01:00,00:00:02:12,a^Bb\n"},
		{"", ""}
	};
	string doc = docs[k][d], other = docs[k][1 - d];
	if (k == STL_BINARY) {
		stl::Gsi g;
		g.v["OPT"] = "Other";
		stl::Tti a, b;
		a.text = "\x80" "a\x8a" "b";
		b.text = "other";
		doc = stl::file(g, {a, b});
		other = stl::file(stl::Gsi(), {b});
		if (d) std::swap(doc, other);
	}
	static char const* const names[] = {"subtitles()", "metadata()", "collect", "dump", "copy it and drop the copy", "replace it with a copy", "change what subtitles() gave", "assign another to a copy"};
	string what = string(kind_names[k]) + ": ";
	for (int i: q) what += string(names[i]) + "; ";
	run(c, {}, what, [&]() -> string {
		std::stringbuf b;
		std::cout.rdbuf(&b);
		R r = from_string((Kind) k, doc), o = from_string((Kind) k, other);
		string const want = show_r(r), want_other = show_r(o);
		auto dumped = [](R x) { std::ostringstream s; sub::dump(x, s); return s.str(); };
		string const want_dump = dumped(from_string((Kind) k, doc)), want_list = show_list(sub::collect<vector<sub::Subtitle>>(from_string((Kind) k, doc)->subtitles()));
		auto copy = [&](const R& x) -> R {
			switch (k) {
			case SUBRIP: return std::make_shared<sub::SubripReader>(static_cast<sub::SubripReader&>(*x));
			case SSA: return std::make_shared<sub::SSAReader>(static_cast<sub::SSAReader&>(*x));
			case VTT: return std::make_shared<sub::WebVTTReader>(static_cast<sub::WebVTTReader&>(*x));
			case STL_TEXT: return std::make_shared<sub::STLTextReader>(static_cast<sub::STLTextReader&>(*x));
			default: return std::make_shared<sub::STLBinaryReader>(static_cast<sub::STLBinaryReader&>(*x));
			}
		};
		auto assign = [&](const R& x, const R& y) {
			switch (k) {
			case SUBRIP: static_cast<sub::SubripReader&>(*x) = static_cast<sub::SubripReader&>(*y); break;
			case SSA: static_cast<sub::SSAReader&>(*x) = static_cast<sub::SSAReader&>(*y); break;
			case VTT: static_cast<sub::WebVTTReader&>(*x) = static_cast<sub::WebVTTReader&>(*y); break;
			case STL_TEXT: static_cast<sub::STLTextReader&>(*x) = static_cast<sub::STLTextReader&>(*y); break;
			default: static_cast<sub::STLBinaryReader&>(*x) = static_cast<sub::STLBinaryReader&>(*y);
			}
		};
		for (int i: q) {
			if (i == 0) r->subtitles();
			if (i == 1) r->metadata();
			if (i == 2 && show_list(sub::collect<vector<sub::Subtitle>>(r->subtitles())) != want_list) return "differs: collect gives something else";
			if (i == 3 && dumped(r) != want_dump) return "differs: dump gives something else";
			if (i == 4) { R x = copy(r); if (show_r(x) != want) return "differs: the copy is " + show_r(x) + "\nrather than " + want; }
			if (i == 5) r = copy(r);
			if (i == 6) { auto x = r->subtitles(); for (auto& j: x) { j.text = "!"; j.vertical_position.line = 99; } x.clear(); }
			if (i == 7) { R x = copy(r); assign(x, o); if (show_r(x) != want_other) return "differs: assigned, it is " + show_r(x) + "\nrather than " + want_other; }
			if (show_r(r) != want) return string("changed: after ") + names[i] + " it is " + show_r(r) + "\nrather than " + want;
			if (show_r(o) != want_other) return "changed: another reader has changed";
		}
		return "";
	}, n);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C17";
	o.hang_seconds = 200;
	return mc::main(argc, argv, o, {
		{"pairs", 0, 0, [](mc::Ctx& c) { sequences(c, 2, 1); }},
		{"rounds", 0, 0, rounds},
		{"repeats", 0, 0, [](mc::Ctx& c) { repeats(c, c.thorough() ? vector<int>{2, 10, 100, 300} : vector<int>{20}); }},
		{"failures", 0, 0, failures},
		{"queries", 0, 0, [](mc::Ctx& c) { queries(c, c.thorough() ? 5 : 3); }},
		{"triples", -1, 0, [](mc::Ctx& c) { sequences(c, 3, 1); }},
		{"selected-triples", 0, -1, [](mc::Ctx& c) { sequences(c, 3, 4); }},
		{"selected-fours", -1, 0, [](mc::Ctx& c) { sequences(c, 4, 4); }},
	}, "each sequence of 2 of 84 operations (a quarter of them: 3; thorough: all of them 3, a quarter of them 4), everything in order from each start with strides of 1 to 23 (thorough 83), each operation 20 times (thorough 2 to 300) and then each other one, an allocation failing at 100 places in a new process and 25 in a used one (thorough every one) of each operation followed by everything else, and sequences of up to 3 (thorough 5) of 8 uses of each kind of reader; each in a process which has not used the library before, comparing each result with that of the operation alone, earlier results with what they were, and the state of the process",
	{"the operations are those of lib/operations.h"});
}
