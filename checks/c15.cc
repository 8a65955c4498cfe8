/* C15: threads which use the library at the same time, under every schedule within a bound, from a process which has never used it */
#include "operations.h"
#include "scheduler.h"
#include <csignal>
#include <dlfcn.h>
#include <map>
#include <set>
#include <sys/stat.h>
#include <sys/wait.h>

extern "C" char __executable_start;
using namespace op;

typedef vector<vector<size_t>> Threads;

/** a number which no thread has */
static int const MAX_WHO = sched::MAX_THREADS;

struct Place { int index, thread, enabled, next; bool forced; };

struct Execution {
	string wrong;            ///< what was wrong, if anything
	vector<Place> places;    ///< where another thread could have been chosen and it might have mattered
	int points = 0;
	uint64_t trace = 0;      ///< of the places
	uint64_t accesses = 0;
};

static string clip(const string& s) { return s.size() > 1500 ? s.substr(0, 1500) + "..." : s; }

/** Run something in a new process */
static string apart(const std::function<string ()>& f)
{
	int p[2];
	if (pipe(p)) abort();
	fflush(stdout);
	pid_t const child = fork();
	if (child < 0) { perror("fork"); abort(); }
	if (child == 0) {
		close(p[0]);
		/* warnings are of no interest */
		int const null = ::open("/dev/null", O_WRONLY);
		dup2(null, 1);
		alarm(60);
		string const s = f();
		size_t done = 0;
		while (done < s.size()) {
			ssize_t const n = write(p[1], s.data() + done, s.size() - done);
			if (n <= 0) break;
			done += n;
		}
		_exit(0);
	}
	close(p[1]);
	string s;
	char b[65536];
	ssize_t n;
	while ((n = read(p[0], b, sizeof(b))) > 0) s.append(b, n);
	close(p[0]);
	int st = 0;
	while (waitpid(child, &st, 0) < 0) {}
	if (WIFSIGNALED(st)) s = mc::format("!it ends with signal %d", WTERMSIG(st));
	else if (WEXITSTATUS(st) == 98) abort();
	else if (WEXITSTATUS(st)) s = mc::format("!it exits with %d", WEXITSTATUS(st));
	return s;
}

/** Operations that the threads may do, and what they need before they start */
struct Library {
	vector<Op> const & ops;
	std::function<void ()> prepare;
};

/** What each operation gives when it is the first thing that a process does, for each thread */
static string const& alone(const Library& l, size_t n, int who)
{
	static std::map<std::tuple<const void*, size_t, int>, string> r;
	if (r.empty()) {
		string const d = mc::scratch() + mc::format("/t.%d", (int) getpid());
		mkdir(d.c_str(), 0777);
		if (chdir(d.c_str())) { perror(d.c_str()); abort(); }
	}
	auto const k = std::make_tuple((const void *) &l.ops, n, who);
	auto const i = r.find(k);
	if (i != r.end()) return i->second;
	return r[k] = apart([&]() { if (l.prepare) l.prepare(); return l.ops[n].run(who).result; });
}

/* Things which are made before the threads start and which they only look at */

struct Common {
	vector<std::pair<Kind, R>> readers;
	vector<sub::Subtitle> subtitles;
};

static Common& common()
{
	static Common c;
	return c;
}

static void make_common()
{
	auto& c = common();
	stl::Gsi g;
	auto tti = [](int n, const string& t) { stl::Tti x; x.sn = n; x.in.m = x.out.m = n; x.text = t; return x; };
	for (auto& i: vector<std::pair<Kind, string>>{
		{SUBRIP, "1\n00:00:01,000 --> 00:00:02,500\n<i>one</i>\n{\\an8}two<font color=\"#ff0000\">x</font>\n\n2\n00:00:03,000 --> 00:00:04,500\nthree\n"},
		{SSA, styles() + "Dialogue: 0:00:01.00,0:00:02.00,Red,0,0,0,a{\\c&H00FF00&\\i0}b{\\c}c\\Nd\nDialogue: 0:00:03.00,0:00:04.00,Default,5,6,7,e\n"},
		{VTT, "WEBVTT\n\n1\n00:00:01.000 --> 00:00:02.500 line:0\na\nb\n"},
		{STL_TEXT, "$Bold=True\n00:00:01:00,00:00:02:12,a|^Ib^I\n"},
		{STL_BINARY, stl::file(g, {tti(1, "a\x80" "b\x81\x8a" "c\xc2" "e"), tti(2, "d\x01r\x07w")})}
	}) c.readers.push_back({i.first, from_string(i.first, i.second)});
	c.subtitles = sub::collect<vector<sub::Subtitle>>({piece("sh\xc3\xa4red", 1000, 2000, 3), piece("italic", 1000, 2000, 4, true), piece("next", 3000, 4000, 8)});
}

static vector<Op> const& looks()
{
	static vector<Op> ops;
	if (!ops.empty()) return ops;
	for (int i = 0; i < 5; ++i) {
		ops.push_back({mc::format("dump reader %d", i), [i](int) { return Held{outcome([&]() { std::ostringstream s; s.imbue(std::locale::classic()); sub::dump(common().readers[i].second, s); return s.str(); }), {}}; }});
		ops.push_back({mc::format("collect from reader %d", i), [i](int) { return Held{outcome([&]() { return show_list(sub::collect<vector<sub::Subtitle>>(common().readers[i].second->subtitles())); }), {}}; }});
		ops.push_back({mc::format("look at reader %d", i), [i](int) { return Held{outcome([&]() { return show_r(common().readers[i].second); }), {}}; }});
	}
	ops.push_back({"copy subtitles", [](int) { return Held{outcome([]() { auto s = common().subtitles; return show_list(s); }), {}}; }});
	ops.push_back({"compare subtitles", [](int) { return Held{outcome([]() { auto& s = common().subtitles; string o; for (auto& i: s) for (auto& j: s) o += mc::format("%d%d", i == j, i.from < j.from) + (i.lines[0].vertical_position < j.lines[0].vertical_position ? "y" : "n"); return o; }), {}}; }});
	wr::Meta a, b;
	b.language = sub::LANGUAGE_FRENCH;
	b.fps = 24;
	for (auto& m: {a, b}) ops.push_back({mc::format("write subtitles at %g", (double) m.fps), [m](int who) { return Held{outcome([&]() { string const p = path(who, "common.stl"); wr::write(common().subtitles, m, p); return wr::slurp(p); }), {}}; }});
	return ops;
}

struct Run {
	Threads const * todo;
	Library const * library;
	vector<vector<string>> results;
};

static void body(void* p, int who)
{
	auto r = static_cast<Run*>(p);
	for (size_t i: (*r->todo)[who]) r->results[who].push_back(r->library->ops[i].run(who).result);
}

/** "in 0x..." -> "in function (file:line)" */
static string explain(string s)
{
	static char exe[4096];
	ssize_t const n = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	exe[n > 0 ? n : 0] = 0;
	uintptr_t const base = reinterpret_cast<uintptr_t>(&__executable_start);
	for (size_t at = 0; (at = s.find("in 0x", at)) != string::npos; at += 3) {
		size_t const end = s.find_first_not_of("0123456789abcdef", at + 5);
		uintptr_t const pc = strtoull(s.substr(at + 3, end - at - 3).c_str(), nullptr, 16);
		FILE* f = popen(mc::format("addr2line -Cfse %s %lx 2>/dev/null", exe, (unsigned long) (pc - base - 1)).c_str(), "r");
		char a[2048] = "?", b[2048] = "?";
		if (f) { if (!fgets(a, sizeof(a), f) || !fgets(b, sizeof(b), f)) {} pclose(f); }
		a[strcspn(a, "\n")] = b[strcspn(b, "\n")] = 0;
		string const t = mc::format("%.300s (%.200s)", a, b);
		s.replace(at + 3, end == string::npos ? string::npos : end - at - 3, t);
	}
	return s;
}

/** for a look at what is going on */
static FILE* show_to()
{
	static FILE* f = fopen(getenv("C15_SHOW"), "a");
	setlinebuf(f);
	return f;
}

/** @param warm true if everything has been done before the threads start */
static Execution execute(const Library& l, const Threads& t, const vector<sched::Switch>& s, bool warm)
{
	string const r = apart([&]() {
		Run run;
		run.todo = &t;
		run.library = &l;
		run.results.resize(t.size());
		if (l.prepare) l.prepare();
		if (warm) for (auto& i: t) for (size_t j: i) l.ops[j].run(MAX_WHO);
		sched::run(t.size(), body, &run, s.data(), s.size());
		string o;
		string wrong = sched::problem();
		for (size_t i = 0; i < t.size() && wrong.empty(); ++i) {
			for (size_t j = 0; j < t[i].size() && wrong.empty(); ++j) {
				string const& good = alone(l, t[i][j], i);
				if (run.results[i][j] != good) wrong = mc::format("differs: thread %d gets from ", (int) i) + l.ops[t[i][j]].name + "\n" + clip(run.results[i][j]) + "\nbut alone it gets\n" + clip(good);
			}
		}
		/* only what happens to things which more than one thread uses can matter */
		std::map<uint64_t, int> users;
		auto const p = sched::points();
		int const n = sched::number_of_points();
		for (int i = 0; i < n; ++i) if (p[i].thread >= 0) users[p[i].object] |= 1 << p[i].thread;
		o += mc::format("%d %llu\n", n, (unsigned long long) sched::accesses());
		for (int i = 0; i < n; ++i) {
			int const u = users[p[i].object];
			bool const shared = p[i].kind != 'x' && (u & (u - 1));
			if (!(p[i].forced || shared) || !(p[i].enabled & (p[i].enabled - 1))) continue;
			o += mc::format("%d %d %d %d %d\n", i, p[i].thread, p[i].enabled, p[i].next, p[i].forced);
		}
		if (getenv("C15_SHOW") && s.empty()) {
			std::map<std::pair<uint64_t, char>, int> k;
			for (int i = 0; i < n; ++i) { int const u = users[p[i].object]; if (u & (u - 1)) ++k[{p[i].object, p[i].kind}]; }
			for (auto& i: k) {
				Dl_info d;
				bool const ok = dladdr((void*) i.first.first, &d);
				fprintf(show_to(), "  %d of %c at %llx %s\n", i.second, i.first.second, (unsigned long long) i.first.first, ok && d.dli_sname ? d.dli_sname : "?");
			}
		}
		return o + "." + explain(wrong);
	});
	Execution e;
	if (r.empty() || r[0] == '!') {
		e.wrong = "crash: " + (r.empty() ? "it gives nothing" : r.substr(1));
		return e;
	}
	size_t at = 0;
	bool first = true;
	while (at < r.size() && r[at] != '.') {
		size_t const nl = r.find('\n', at);
		string const l = r.substr(at, nl - at);
		if (first) {
			unsigned long long a;
			sscanf(l.c_str(), "%d %llu", &e.points, &a);
			e.accesses = a;
		} else {
			Place p;
			int f;
			sscanf(l.c_str(), "%d %d %d %d %d", &p.index, &p.thread, &p.enabled, &p.next, &f);
			p.forced = f;
			e.places.push_back(p);
			e.trace = mc::mix(e.trace, mc::hash(l));
		}
		first = false;
		at = nl + 1;
	}
	e.wrong = r.substr(std::min(r.size(), at + 1));
	return e;
}

/** How many of the places where one thread can be preempted in one execution are explored: so many from the start, and so many at the end */
static int const FIRST = 200;
static int const LAST = 56;

struct Explorer {
	mc::Ctx& c;
	Library const & library;
	Threads const & threads;
	bool warm;
	int bound;
	uint64_t name;
	string what;
	int executions = 0;

	void explore(vector<sched::Switch>& s, int used)
	{
		string in = what + (s.empty() ? "" : "schedule");
		for (auto& i: s) in += mc::format(" %d>%d", i.point, i.thread);
		c.input(in);
		Execution const e = execute(library, threads, s, warm);
		++executions;
		if (getenv("C15_SHOW") && executions < 3) fprintf(show_to(), "%d points, %d places, %llu accesses: %s\n", e.points, (int) e.places.size(), (unsigned long long) e.accesses, in.c_str());
		c.step(e.points);
		c.compared();
		c.state(mc::mix(name, e.trace));
		if (!e.wrong.empty()) {
			size_t const colon = e.wrong.find(':');
			c.fail(e.wrong.substr(0, colon), e.wrong + "\nwith " + in);
		}
		int const after = s.empty() ? -1 : s.back().point;
		vector<int> total(threads.size()), seen(threads.size());
		for (auto& p: e.places) total[p.thread] += !p.forced;
		for (auto& p: e.places) {
			/* libsub has far fewer of these: this is for changed code that synchronises at every character */
			bool const many = !p.forced && ++seen[p.thread] > FIRST && seen[p.thread] <= total[p.thread] - LAST;
			if (p.index <= after || many) continue;
			if (c.late()) return;
			int const cost = p.forced ? 0 : 1;
			if (used + cost > bound) continue;
			for (int t = 0; t < (int) threads.size(); ++t) {
				if (t == p.next || !(p.enabled & (1 << t))) continue;
				s.push_back({p.index, t});
				explore(s, used + cost);
				s.pop_back();
			}
		}
	}
};

static void explore(mc::Ctx& c, const Library& l, const Threads& t, int bound, bool warm)
{
	string what;
	uint64_t h = mc::mix(warm, (bool) l.prepare);
	for (size_t k = 0; k < t.size(); ++k) {
		what += k ? " || " : "";
		for (size_t j = 0; j < t[k].size(); ++j) { what += (j ? "; " : "") + l.ops[t[k][j]].name; h = mc::mix(h, t[k][j]); alone(l, t[k][j], k); }
		h = mc::mix(h, 999);
	}
	c.outcome(h);
	Explorer e{c, l, t, warm, bound, h, what + (warm ? " (when they have been used before) " : " "), 0};
	vector<sched::Switch> s;
	e.explore(s, 0);
	if (getenv("C15_SHOW")) fprintf(show_to(), "%6d schedules of %s\n", e.executions, what.c_str());
}

static Library const& everything() { static Library l{all(), {}}; return l; }
static Library const& shared() { static Library l{looks(), make_common}; return l; }

/** Each pair of operations, one in each thread */
static void pairs(mc::Ctx& c, const Library& l, int bound, bool warm)
{
	size_t const n = l.ops.size();
	size_t const a = c.pick(n), b = c.pick(n);
	if (a > b) return;
	if (!c.go()) return;
	explore(c, l, {{a}, {b}}, bound, warm);
}

/** One of each kind of operation */
static vector<size_t> some(const vector<string>& names)
{
	vector<size_t> r;
	for (auto& n: names) {
		size_t i = 0;
		while (i < all().size() && all()[i].name != n) ++i;
		if (i == all().size()) { fprintf(stderr, "no operation %s\n", n.c_str()); abort(); }
		r.push_back(i);
	}
	return r;
}

static vector<size_t> const& kinds()
{
	static vector<size_t> const r = some({"SubRip: two cues", "SSA: styles", "WebVTT: two cues", "text STL: variables", "binary STL: English", "open SubRip", "open binary STL", "collect three", "dump SubRip", "write diacritics in French", "from ISO 6937", "to ISO 6937", "tables"});
	return r;
}

/** Three threads */
static void triples(mc::Ctx& c, int bound)
{
	auto const& k = kinds();
	size_t const x = c.pick(k.size()), y = c.pick(k.size()), z = c.pick(k.size());
	if (x > y || y > z) return;
	if (!c.go()) return;
	explore(c, everything(), {{k[x]}, {k[y]}, {k[z]}}, bound, false);
}

/** Two operations in one thread and one or two in another */
static void sequences(mc::Ctx& c, bool both, int bound)
{
	auto const& k = kinds();
	size_t const w = c.pick(k.size()), x = c.pick(k.size()), y = c.pick(k.size()), z = both ? c.pick(k.size()) : 0;
	if (both && std::make_pair(w, x) > std::make_pair(y, z)) return;
	if (!c.go()) return;
	vector<size_t> second{k[y]};
	if (both) second.push_back(k[z]);
	explore(c, everything(), {{k[w], k[x]}, second}, bound, false);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C15";
	o.hang_seconds = 900;
	return mc::main(argc, argv, o, {
		{"pairs", 0, 0, [](mc::Ctx& c) { pairs(c, everything(), c.thorough() ? 2 : 1, false); }},
		{"shared", 0, 0, [](mc::Ctx& c) { pairs(c, shared(), c.thorough() ? 2 : 1, false); }},
		{"triples", 0, 0, [](mc::Ctx& c) { triples(c, c.thorough() ? 1 : 0); }},
		{"sequences", 0, 0, [](mc::Ctx& c) { sequences(c, false, c.thorough() ? 1 : 0); }},
		{"long-sequences", -1, 0, [](mc::Ctx& c) { sequences(c, true, 1); }},
	}, "each pair of the operations of lib/operations.h at once in two threads of a process which has not used the library before, under every schedule with up to 1 preemption (thorough 2); each pair of 19 operations which only look at readers and subtitles that both threads have; each three of 13 operations of different kinds in three threads, and each two of them in one thread with one in another, under every schedule with no preemption (thorough 1; and two operations in each of two threads)",
	{"threads are switched where they synchronise (mutexes, call_once, static initialisation, atomics, functions which use state of the process or a file) on something which more than one of them uses: since every execution is also checked for data races, switches elsewhere give nothing new",
	 "if one thread of an execution synchronises more than 256 times with others (the most in this code is 142), only its first 200 and last 56 places are preempted",
	 "memory that libc, libstdc++ and Boost keep for themselves (as distinct from what their templates do when used by libsub) is taken to be properly protected",
	 "executions are sequentially consistent"});
}
