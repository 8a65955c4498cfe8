#include "mc.h"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdarg>
#include <csignal>
#include <cstdlib>
#include <clocale>
#include <locale.h>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using std::string;
using std::vector;

namespace mc {

static int const MAX_TRAIL = 4096;
static int const MAX_SCENARIOS = 256;
static size_t const STATES = 1u << 23;
static size_t const OUTCOMES = 1u << 21;

struct Slot {
	std::atomic<int64_t> since;      // ns, 0 = idle
	int scenario;
	int n;
	int trail[MAX_TRAIL];
	char input[4096];
	std::atomic<int> done;
};

struct ScenarioStats {
	std::atomic<uint64_t> executions;
	std::atomic<int> incomplete;
	std::atomic<int> sampled;
	char sample[3][600];
};

struct Shared {
	std::atomic<uint64_t> states, outcomes, steps, compared, executions, known;
	std::atomic<int> stop, overflow;
	Slot slots[64];
	ScenarioStats scenarios[MAX_SCENARIOS];
	std::atomic<uint64_t> state_table[STATES];
	std::atomic<uint64_t> outcome_table[OUTCOMES];
};

static Shared* shared;
static int worker = -1;
static int nworkers = 1;
static bool tier_thorough;
static unsigned long the_seed = 1;
static string scratch_dir;
static int current_scenario;
static int fail_fd = -1;
static std::set<string> known_keys;
static int64_t deadline_ns;

static int64_t now_ns()
{
	return std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
	auto c = static_cast<const unsigned char*>(p);
	for (size_t i = 0; i < n; ++i) {
		h = (h ^ c[i]) * 1099511628211ull;
	}
	h ^= h >> 32;
	h *= 0xd6e8feb86659fd93ull;
	h ^= h >> 32;
	return h;
}

static bool insert(std::atomic<uint64_t>* table, size_t size, std::atomic<uint64_t>& count, uint64_t h)
{
	if (!h) {
		h = 1;
	}
	if (count.load(std::memory_order_relaxed) > size / 10 * 8) {
		shared->overflow = 1;
		return false;
	}
	size_t i = (h * 0x9e3779b97f4a7c15ull) & (size - 1);
	while (true) {
		uint64_t v = table[i].load(std::memory_order_relaxed);
		if (v == h) {
			return false;
		}
		if (v == 0) {
			uint64_t e = 0;
			if (table[i].compare_exchange_strong(e, h, std::memory_order_relaxed)) {
				++count;
				return true;
			}
			if (e == h) {
				return false;
			}
		}
		i = (i + 1) & (size - 1);
	}
}

bool Ctx::thorough() const { return tier_thorough; }
unsigned long Ctx::seed() const { return the_seed; }

static void internal_error(const string& s)
{
	fprintf(stderr, "explorer error: %s\n", s.c_str());
	fflush(stderr);
	_exit(97);
}

static int choose(Ctx& c, int n, int cost)
{
	if (n <= 0) {
		internal_error("choice among nothing");
	}
	int taken;
	if (c.pos < c.trail.size()) {
		auto& p = c.trail[c.pos];
		if (c._replaying) {
			p.n = n;
			p.cost = cost;
			if (p.taken >= n) {
				internal_error("replay diverged: choice out of range");
			}
		} else if (p.n != n) {
			internal_error("divergence while replaying a prefix");
		}
		taken = p.taken;
	} else {
		taken = 0;
		c.trail.push_back({n, 0, cost});
	}
	++c.pos;
	if (taken) {
		c.used += cost;
	}
	if (c.started && worker >= 0) {
		auto& s = shared->slots[worker];
		if (s.n < MAX_TRAIL) {
			s.trail[s.n++] = taken;
		}
	}
	return taken;
}

int Ctx::pick(int n)
{
	return choose(*this, n, 0);
}

int Ctx::dev(int n)
{
	return choose(*this, (_replaying || used < bound) ? n : 1, 1);
}

bool Ctx::go()
{
	if (!_replaying) {
		if (exact && used != bound) {
			return false;
		}
		uint64_t h = 0;
		for (size_t i = 0; i < pos; ++i) {
			h = mix(h, trail[i].taken + 1);
		}
		if ((h >> 17) % nworkers != (unsigned) worker) {
			return false;
		}
	}
	started = true;
	if (worker >= 0) {
		auto& s = shared->slots[worker];
		s.scenario = current_scenario;
		s.n = 0;
		for (size_t i = 0; i < pos && s.n < MAX_TRAIL; ++i) {
			s.trail[s.n++] = trail[i].taken;
		}
		s.input[0] = 0;
		s.since = now_ns();
		++shared->scenarios[current_scenario].executions;
		++shared->executions;
	}
	return true;
}

void Ctx::input(const string& str)
{
	if (worker >= 0) {
		auto& s = shared->slots[worker];
		size_t n = std::min(str.size(), sizeof(s.input) - 1);
		memcpy(s.input, str.data(), n);
		s.input[n] = 0;
		auto& sc = shared->scenarios[current_scenario];
		if (sc.sampled < 3) {
			uint64_t x = sc.executions;
			int want = sc.sampled == 0 ? 1 : (sc.sampled == 1 ? 20 : 300);
			if (x >= (unsigned) want) {
				int i = sc.sampled++;
				if (i < 3) {
					string t = show(str, 500);
					strncpy(sc.sample[i], t.c_str(), sizeof(sc.sample[i]) - 1);
				}
			}
		}
	} else if (_replaying) {
		printf("INPUT: %s\n", show(str, 100000).c_str());
	}
}

void Ctx::state(uint64_t h) { if (worker >= 0) insert(shared->state_table, STATES, shared->states, mix(h, current_scenario + 1)); }
void Ctx::step(int n) { if (worker >= 0) shared->steps += n; }
void Ctx::compared(int n) { if (worker >= 0) shared->compared += n; }
void Ctx::outcome(uint64_t h) { if (worker >= 0) insert(shared->outcome_table, OUTCOMES, shared->outcomes, h); }

static string escape(const string& s)
{
	string o;
	for (unsigned char c: s) {
		if (c == '\\') {
			o += "\\\\";
		} else if (c == '\n') {
			o += "\\n";
		} else if (c == '\t') {
			o += "\\t";
		} else {
			o += c;
		}
	}
	return o;
}

static string unescape(const string& s)
{
	string o;
	for (size_t i = 0; i < s.size(); ++i) {
		if (s[i] == '\\' && i + 1 < s.size()) {
			++i;
			o += s[i] == 'n' ? '\n' : (s[i] == 't' ? '\t' : s[i]);
		} else {
			o += s[i];
		}
	}
	return o;
}

void Ctx::fail(const string& key, const string& message)
{
	if (known_keys.count(key)) {
		if (worker >= 0) {
			++shared->known;
		}
		printf("known finding reproduced: %s\n", key.c_str());
		throw Failure();
	}
	string s = "F\t" + std::to_string(current_scenario) + "\t" + std::to_string(used) + "\t";
	for (size_t i = 0; i < pos; ++i) {
		s += (i ? "," : "") + std::to_string(trail[i].taken);
	}
	s += "\t" + escape(key) + "\t" + escape(show(message, 20000)) + "\t" + (worker >= 0 ? escape(show(shared->slots[worker].input, 4000)) : "") + "\n";
	if (fail_fd >= 0) {
		ssize_t r = write(fail_fd, s.data(), s.size());
		(void) r;
	}
	if (worker >= 0) {
		shared->stop = 1;
	}
	if (_replaying) {
		printf("FAILS: %s: %s\n", key.c_str(), show(message, 20000).c_str());
	}
	throw Failure();
}

string show(const string& s, size_t max)
{
	string o;
	size_t n = 0;
	for (unsigned char c: s) {
		if (n++ >= max) {
			o += "...(" + std::to_string(s.size()) + " bytes)";
			break;
		}
		if (c == '\n') {
			o += "\\n";
		} else if (c == '\r') {
			o += "\\r";
		} else if (c == '\t') {
			o += "\\t";
		} else if (c < 32 || c >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\x%02x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o;
}

string json(const string& s)
{
	string o = "\"";
	for (unsigned char c: s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 32 || c >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else {
			o += c;
		}
	}
	return o + "\"";
}

string format(const char* f, ...)
{
	/* the same whatever the locale of the process */
	static locale_t const c = newlocale(LC_ALL_MASK, "C", nullptr);
	locale_t const before = uselocale(c);
	va_list ap, ap2;
	va_start(ap, f);
	va_copy(ap2, ap);
	int n = vsnprintf(nullptr, 0, f, ap);
	va_end(ap);
	string s(n + 1, 0);
	vsnprintf(&s[0], n + 1, f, ap2);
	va_end(ap2);
	uselocale(before);
	s.resize(n);
	return s;
}

const string& scratch() { return scratch_dir; }

bool Ctx::late()
{
	if (_replaying || now_ns() <= deadline_ns) {
		return false;
	}
	++shared->scenarios[current_scenario].incomplete;
	return true;
}

static bool backtrack(Ctx& c)
{
	while (!c.trail.empty()) {
		auto& p = c.trail.back();
		if (p.taken + 1 < p.n) {
			++p.taken;
			return true;
		}
		c.trail.pop_back();
	}
	return false;
}

/** Explore everything that belongs to this worker. @return true if something failed */
static bool explore(const vector<Scenario>& scenarios, const string& only)
{
	for (size_t k = 0; k < scenarios.size(); ++k) {
		auto const& sc = scenarios[k];
		int const max_bound = tier_thorough ? sc.thorough : sc.quick;
		if (max_bound < 0 || (!only.empty() && sc.name != only)) {
			continue;
		}
		current_scenario = k;
		for (int b = sc.post ? max_bound : 0; b <= max_bound; ++b) {
			Ctx c;
			c.bound = b;
			c.exact = !sc.post;
			while (true) {
				c.pos = 0;
				c.used = 0;
				c.started = false;
				bool failed = false;
				try {
					sc.body(c);
				} catch (Failure&) {
					failed = true;
				}
				shared->slots[worker].since = 0;
				if (c.pos != c.trail.size()) {
					internal_error("divergence: execution took fewer choices than its prefix");
				}
				if (failed && shared->stop) {
					return true;
				}
				if (shared->stop) {
					return true;
				}
				if (c.late()) {
					break;
				}
				if (!backtrack(c)) {
					break;
				}
			}
		}
	}
	return false;
}

struct Record {
	int scenario = 0;
	int used = 0;
	vector<int> trail;
	string key, message, input;
	int from = -1; // worker
};

static bool parse_record(const string& line, Record& r)
{
	vector<string> f;
	size_t p = 0;
	while (true) {
		size_t q = line.find('\t', p);
		f.push_back(line.substr(p, q == string::npos ? q : q - p));
		if (q == string::npos) {
			break;
		}
		p = q + 1;
	}
	if (f.size() != 7 || f[0] != "F") {
		return false;
	}
	r.scenario = atoi(f[1].c_str());
	r.used = atoi(f[2].c_str());
	std::stringstream ss(f[3]);
	string x;
	while (getline(ss, x, ',')) {
		r.trail.push_back(atoi(x.c_str()));
	}
	r.key = unescape(f[4]);
	r.message = unescape(f[5]);
	r.input = unescape(f[6]);
	return true;
}

static string slurp(const string& p)
{
	std::ifstream f(p, std::ios::binary);
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}

static void redirect(const string& path)
{
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
	dup2(fd, 1);
	dup2(fd, 2);
	close(fd);
	setvbuf(stdout, nullptr, _IOLBF, 0);
}

/** Wait for a child, killing it if its process runs longer than limit seconds. @return status or -1 if killed */
static int wait_limited(pid_t pid, double limit)
{
	int64_t end = now_ns() + int64_t(limit * 1e9);
	while (true) {
		int st;
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) {
			return st;
		}
		if (now_ns() > end) {
			kill(pid, SIGKILL);
			waitpid(pid, &st, 0);
			return -1;
		}
		usleep(2000);
	}
}

static bool abnormal(int st)
{
	return !WIFEXITED(st) || (WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 97);
}

static string death(int st)
{
	if (WIFSIGNALED(st)) {
		return format("killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	}
	return format("exit status %d", WEXITSTATUS(st));
}

/** The code under test must not be able to hurt the machine, whatever it has become: do not run it as root
 *  but as a user who has no files except those in the scratch directory.
 */
static uid_t const nobody = 61803;
static bool droppable = false;

static bool drop()
{
	if (setgroups(0, nullptr) && errno != EPERM) return false;
	if (setresgid(nobody, nobody, nobody) || setresuid(nobody, nobody, nobody)) return false;
	/* so that /proc/self is still ours */
	prctl(PR_SET_DUMPABLE, 1);
	return true;
}

/** Find out whether we can run as another user and still use what we need */
static void prepare_drop()
{
	if (geteuid() != 0) return;
	pid_t const p = fork();
	if (p == 0) {
		bool ok = drop();
		for (auto v: {"VERIF_DUMPSUBS", "VERIF_DIR"}) {
			if (char const* s = getenv(v)) ok = ok && access(s, X_OK | R_OK) == 0;
		}
		_exit(ok ? 0 : 1);
	}
	int st = 0;
	droppable = waitpid(p, &st, 0) == p && WIFEXITED(st) && WEXITSTATUS(st) == 0 && chown(scratch_dir.c_str(), nobody, nobody) == 0;
}

static void drop_privileges()
{
	if (droppable && !drop()) {
		perror("cannot stop being root");
		_exit(97);
	}
}

/** Run one execution alone in a fresh process. @return "" if it passes, otherwise the failure key */
static string replay_once(const vector<Scenario>& scenarios, const Record& r, double limit, string* output)
{
	string const out = scratch_dir + "/replay.out", ff = scratch_dir + "/replay.fail";
	unlink(ff.c_str());
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		redirect(out);
		fail_fd = open(ff.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
		drop_privileges();
		worker = -1;
		current_scenario = r.scenario;
		Ctx c;
		c._replaying = true;
		c.bound = 1 << 30;
		for (int i: r.trail) {
			c.trail.push_back({0, i, 0});
		}
		try {
			scenarios[r.scenario].body(c);
			printf("PASSES\n");
		} catch (Failure&) {
		}
		fflush(stdout);
		_exit(0);
	}
	int st = wait_limited(pid, limit);
	if (output) {
		*output = slurp(out);
	}
	if (st == -1) {
		return "hang";
	}
	if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
		return "explorer-error";
	}
	if (abnormal(st)) {
		return "crash";
	}
	Record f;
	string s = slurp(ff);
	size_t nl = s.find('\n');
	if (nl != string::npos && parse_record(s.substr(0, nl), f)) {
		return f.key;
	}
	return "";
}

static pid_t start_worker(const vector<Scenario>& scenarios, int w, const string& only)
{
	fflush(stdout);
	pid_t pid = fork();
	if (pid == 0) {
		redirect(scratch_dir + "/worker." + std::to_string(w));
		string ff = scratch_dir + "/fail." + std::to_string(w);
		fail_fd = open(ff.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);
		drop_privileges();
		worker = w;
		explore(scenarios, only);
		shared->slots[w].done = 1;
		fflush(stdout);
		_exit(0);
	}
	return pid;
}

static Record slot_record(int w)
{
	Record r;
	auto& s = shared->slots[w];
	r.scenario = s.scenario;
	r.from = w;
	for (int i = 0; i < s.n; ++i) {
		r.trail.push_back(s.trail[i]);
	}
	r.input = show(s.input, 4000);
	return r;
}

int main(int argc, char** argv, const Options& opt, const vector<Scenario>& scenarios, const string& rule, const vector<string>& assumptions)
{
	auto start = now_ns();
	string evidence, replays, replay_file, only, known_file;
	for (int i = 1; i < argc; ++i) {
		string a = argv[i];
		auto next = [&]() { return string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--evidence") {
			evidence = next();
		} else if (a == "--replays") {
			replays = next();
		} else if (a == "--replay") {
			replay_file = next();
		} else if (a == "--thorough") {
			tier_thorough = true;
		} else if (a == "--scenario") {
			only = next();
		} else if (a == "--known") {
			known_file = next();
		} else if (a == "--seed") {
			the_seed = strtoul(next().c_str(), nullptr, 10);
		} else if (a == "--list") {
			for (auto& s: scenarios) {
				printf("%s\n", s.name.c_str());
			}
			return 0;
		}
	}

	char tmpl[] = "/tmp/verif-mc.XXXXXX";
	if (!mkdtemp(tmpl)) {
		perror("mkdtemp");
		return 2;
	}
	scratch_dir = tmpl;
	prepare_drop();
	struct Cleanup { pid_t pid = getpid(); ~Cleanup() { if (getpid() == pid) { std::error_code ec; std::filesystem::remove_all(scratch_dir, ec); } } } cleanup;

	shared = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
	if (shared == MAP_FAILED) {
		perror("mmap");
		return 2;
	}

	/* known findings: lines "KNOWN-FINDING: property=<id> key=<key> <what>" */
	std::map<string, string> known_text;
	if (!known_file.empty()) {
		std::ifstream f(known_file);
		string l;
		string const prefix = string("KNOWN-FINDING: property=") + opt.property + " key=";
		while (getline(f, l)) {
			if (l.compare(0, prefix.size(), prefix) == 0) {
				string rest = l.substr(prefix.size());
				string key = rest.substr(0, rest.find(' '));
				known_keys.insert(key);
				known_text[key] = l;
			}
		}
	}

	if (!replay_file.empty()) {
		std::ifstream f(replay_file);
		string l;
		Record r;
		string name;
		while (getline(f, l)) {
			if (l.compare(0, 10, "scenario: ") == 0) {
				name = l.substr(10);
			} else if (l.compare(0, 9, "choices: ") == 0) {
				std::stringstream ss(l.substr(9));
				string x;
				while (getline(ss, x, ',')) {
					r.trail.push_back(atoi(x.c_str()));
				}
			}
		}
		for (size_t i = 0; i < scenarios.size(); ++i) {
			if (scenarios[i].name == name) {
				r.scenario = i;
				string out;
				string k = replay_once(scenarios, r, 120, &out);
				printf("%s%s\n", out.c_str(), k.empty() ? "replay: no failure" : ("replay: fails: " + k).c_str());
				return k.empty() ? 0 : 1;
			}
		}
		fprintf(stderr, "no scenario %s\n", name.c_str());
		return 2;
	}

	nworkers = opt.workers;
	deadline_ns = start + int64_t((tier_thorough ? opt.time_limit_thorough : opt.time_limit_quick) * 1e9);

	vector<pid_t> pids(nworkers);
	for (int w = 0; w < nworkers; ++w) {
		pids[w] = start_worker(scenarios, w, only);
	}

	vector<Record> candidates;
	int running = nworkers;
	bool error = false;
	while (running > 0) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			for (int w = 0; w < nworkers; ++w) {
				if (pids[w] == p) {
					pids[w] = -1;
					--running;
					if (WIFEXITED(st) && WEXITSTATUS(st) == 97) {
						fprintf(stderr, "%s", slurp(scratch_dir + "/worker." + std::to_string(w)).c_str());
						error = true;
						shared->stop = 1;
					} else if (abnormal(st)) {
						Record r = slot_record(w);
						r.key = "crash";
						string o = slurp(scratch_dir + "/worker." + std::to_string(w));
						r.message = "process " + death(st) + "\n" + o.substr(o.size() > 6000 ? o.size() - 6000 : 0);
						candidates.push_back(r);
						shared->stop = 1;
					}
				}
			}
			continue;
		}
		int64_t t = now_ns();
		for (int w = 0; w < nworkers; ++w) {
			int64_t s = shared->slots[w].since;
			if (pids[w] > 0 && s && t - s > int64_t(opt.hang_seconds * 1e9)) {
				kill(pids[w], SIGKILL);
				waitpid(pids[w], &st, 0);
				pids[w] = -1;
				--running;
				Record r = slot_record(w);
				r.key = "hang";
				r.message = format("execution did not finish within %g seconds", opt.hang_seconds);
				candidates.push_back(r);
				shared->stop = 1;
			}
		}
		usleep(3000);
	}

	for (int w = 0; w < nworkers; ++w) {
		std::ifstream f(scratch_dir + "/fail." + std::to_string(w));
		string l;
		while (getline(f, l)) {
			Record r;
			if (parse_record(l, r)) {
				r.from = w;
				candidates.push_back(r);
			}
		}
	}

	std::stable_sort(candidates.begin(), candidates.end(), [](const Record& a, const Record& b) {
		if (a.scenario != b.scenario) return a.scenario < b.scenario;
		if (a.used != b.used) return a.used < b.used;
		return a.trail.size() < b.trail.size();
	});

	/* Replay before reporting */
	int violations = 0;
	string report;
	for (auto& r: candidates) {
		bool confirmed = true;
		string out, how = "replayed twice in fresh processes";
		for (int i = 0; i < 2 && confirmed; ++i) {
			string k = replay_once(scenarios, r, r.key == "hang" ? opt.hang_seconds * 1.5 : 120, &out);
			if (k != r.key) {
				confirmed = false;
			}
		}
		if (!confirmed && r.from >= 0 && r.key != "hang") {
			/* Perhaps it depends on what the process did before: run the worker again from its beginning */
			shared->stop = 0;
			deadline_ns = now_ns() + int64_t(opt.time_limit_quick * 1e9);
			pid_t p = start_worker(scenarios, r.from, only);
			int st = wait_limited(p, opt.time_limit_quick);
			Record f;
			string s = slurp(scratch_dir + "/fail." + std::to_string(r.from));
			size_t nl = s.find('\n');
			if (st != -1 && abnormal(st) && r.key == "crash") {
				Record q = slot_record(r.from);
				confirmed = q.scenario == r.scenario && q.trail == r.trail;
			} else if (nl != string::npos && parse_record(s.substr(0, nl), f)) {
				confirmed = f.key == r.key && f.scenario == r.scenario && f.trail == r.trail;
			}
			how = "reproduced by running again all of the executions that preceded it in the same process (it passes alone: the result depends on history)";
			out = r.message;
		}
		if (!confirmed) {
			fprintf(stderr, "unconfirmed (does not replay): scenario %s key %s: %s\ninput: %s\n", scenarios[r.scenario].name.c_str(), r.key.c_str(), r.message.c_str(), r.input.c_str());
			error = true;
			continue;
		}
		++violations;
		if (replays.empty()) {
			replays = ".";
		}
		std::filesystem::create_directories(replays);
		string path = replays + "/" + opt.property + "-" + std::to_string(violations) + ".txt";
		std::ofstream o(path);
		o << "property: " << opt.property << "\n";
		o << "scenario: " << scenarios[r.scenario].name << "\n";
		o << "choices: ";
		for (size_t i = 0; i < r.trail.size(); ++i) {
			o << (i ? "," : "") << r.trail[i];
		}
		o << "\nkey: " << r.key << "\nconfirmed: " << how << "\n";
		o << "replay with: python3 run.py " << opt.property << " --replay " << path << "\n";
		o << "input: " << r.input << "\n\n" << r.message << "\n\n" << out << "\n";
		o.close();
		printf("VIOLATION property=%s replay=%s\n", opt.property, path.c_str());
		printf("  scenario %s (%d deviations): %s: %s\n  input: %s\n", scenarios[r.scenario].name.c_str(), r.used, r.key.c_str(), r.message.substr(0, 1500).c_str(), r.input.substr(0, 1500).c_str());
		break;
	}
	if (violations) {
		error = false;
	}

	bool exhaustive = !shared->stop && !error;
	string sc;
	string samples;
	printf("%-34s %8s %14s\n", "scenario", "bound", "executions");
	for (size_t k = 0; k < scenarios.size(); ++k) {
		int b = tier_thorough ? scenarios[k].thorough : scenarios[k].quick;
		if (b < 0 || (!only.empty() && scenarios[k].name != only)) {
			continue;
		}
		auto& s = shared->scenarios[k];
		if (s.incomplete) {
			exhaustive = false;
		}
		sc += string(sc.empty() ? "" : ",") + "{\"name\":" + json(scenarios[k].name) + ",\"deviation_bound\":" + std::to_string(b) +
			",\"executions\":" + std::to_string(s.executions) + ",\"complete\":" + (s.incomplete || violations || error ? "false" : "true") + "}";
		printf("%-34s %8d %14llu%s\n", scenarios[k].name.c_str(), b, (unsigned long long) s.executions, s.incomplete ? " (time limit reached)" : "");
		for (int i = 0; i < std::min(3, (int) s.sampled); ++i) {
			samples += string(samples.empty() ? "" : ",") + json(scenarios[k].name + ": " + s.sample[i]);
		}
	}
	double wall = (now_ns() - start) / 1e9;
	printf("executions %llu, compared %llu, states %llu, transitions %llu, distinct outcomes %llu, %.1fs%s\n",
	       (unsigned long long) shared->executions, (unsigned long long) shared->compared, (unsigned long long) shared->states,
	       (unsigned long long) shared->steps, (unsigned long long) shared->outcomes, wall, shared->overflow ? " (state table full: states undercounted)" : "");

	for (auto const& k: known_text) {
		if (shared->known) {
			printf("%s\n", k.second.c_str());
		}
	}

	if (!evidence.empty()) {
		std::ofstream o(evidence);
		o << "{\"property\":" << json(opt.property) << ",\"tier\":" << (tier_thorough ? "\"thorough\"" : "\"quick\"") << ",\"seed\":" << the_seed
		  << ",\"level\":" << json(opt.level) << ",\"coverage\":{";
		if (string(opt.level) == "model_checking") {
			o << "\"states\":" << shared->states << ",\"transitions\":" << shared->steps
			  << ",\"traces_validated_against_impl\":" << shared->compared;
		} else {
			o << "\"evaluations\":" << shared->executions << ",\"distinct_nontrivial\":" << shared->outcomes;
		}
		o << ",\"executions\":" << shared->executions << ",\"distinct_outcomes\":" << shared->outcomes
		  << ",\"rule\":" << json(rule) << ",\"exhaustive\":" << (exhaustive ? "true" : "false")
		  << ",\"state_table_overflow\":" << (shared->overflow ? "true" : "false")
		  << ",\"scenarios\":[" << sc << "],\"samples\":[" << samples << "]},\"assumptions\":[";
		for (size_t i = 0; i < assumptions.size(); ++i) {
			o << (i ? "," : "") << json(assumptions[i]);
		}
		o << "],\"wall_s\":" << wall << ",\"violations\":" << violations << "}\n";
	}
	if (violations) {
		return 1;
	}
	return error ? 2 : 0;
}

}
