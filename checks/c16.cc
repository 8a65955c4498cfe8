/* C16: failures to write binary STL files */
#include "alloc.h"
#include "stl_writer_model.h"
#include <dlfcn.h>
#include <iostream>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <stddef.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <csignal>
#include <unistd.h>

/* What to do to the system calls made while a file is being written */
struct Plan {
	bool active = false;
	int fail_write = -1, error = EIO;      // the write to fail; with which error
	bool once = false;                     // later ones work
	int short_write = -1, keep = 0;        // the write to cut short; how many bytes it does write (less than 0: all but so many)
	bool all_short = false;
	bool fail_close = false;
	int writes = 0, closes = 0;
	bool write_failed = false, close_failed = false;
};
static Plan plan;

static bool output(int fd)
{
	struct stat s;
	return fd > 2 && fstat(fd, &s) == 0 && S_ISREG(s.st_mode);
}

/** @return -1 to fail, otherwise the number of bytes to write */
static ssize_t permitted(size_t n)
{
	int const w = plan.writes++;
	if (plan.fail_write >= 0 && (w == plan.fail_write || (w > plan.fail_write && !plan.once))) {
		plan.write_failed = true;
		errno = plan.error;
		return -1;
	}
	if (plan.short_write >= 0 && (w == plan.short_write || (plan.all_short && w > plan.short_write)) && n > 1) {
		return plan.keep > 0 ? std::min(n, (size_t) plan.keep) : std::max((ssize_t) 1, (ssize_t) n + plan.keep);
	}
	return n;
}

extern "C" {
ssize_t write(int fd, const void* p, size_t n)
{
	if (plan.active && output(fd)) {
		ssize_t const m = permitted(n);
		if (m < 0) return -1;
		n = m;
	}
	return syscall(SYS_write, fd, p, n);
}
ssize_t writev(int fd, const struct iovec* v, int count)
{
	if (plan.active && output(fd)) {
		size_t all = 0;
		for (int i = 0; i < count; ++i) all += v[i].iov_len;
		ssize_t const m = permitted(all);
		if (m < 0) return -1;
		if ((size_t) m < all) {
			string s;
			for (int i = 0; i < count; ++i) s.append(static_cast<char*>(v[i].iov_base), v[i].iov_len);
			return syscall(SYS_write, fd, s.data(), m);
		}
	}
	return syscall(SYS_writev, fd, v, count);
}
int close(int fd)
{
	bool const fail = plan.active && plan.fail_close && output(fd);
	int r = syscall(SYS_close, fd);
	if (fail) {
		++plan.closes;
		plan.close_failed = true;
		errno = EIO;
		return -1;
	}
	return r;
}
int fclose(FILE* f)
{
	typedef int (*F)(FILE*);
	static F const real = (F) dlsym(RTLD_NEXT, "fclose");
	bool const fail = plan.active && plan.fail_close && output(fileno(f));
	int r = real(f);
	if (fail) {
		++plan.closes;
		plan.close_failed = true;
		errno = EIO;
		return EOF;
	}
	return r;
}
}

static const string& dir()
{
	static string d;
	static pid_t owner = 0;
	if (owner != getpid()) {
		owner = getpid();
		d = mc::scratch() + mc::format("/w.%d", owner);
		mkdir(d.c_str(), 0777);
	}
	return d;
}

/** n blocks' worth of subtitles: mostly of one block each but some of several */
static vector<wr::Sub> make_subs(int n)
{
	vector<wr::Sub> s;
	while (n > 0) {
		wr::Sub x;
		wr::Line l;
		l.prop = 0.3;
		l.kind = 1;
		wr::Block b;
		int const blocks = s.size() % 5 == 4 ? std::min(n, 3) : 1;
		b.text = std::wstring(blocks == 1 ? 20 : 112 * (blocks - 1) + 5, L'a' + s.size() % 26);
		b.italic = s.size() % 3 == 1;
		l.blocks = {b};
		x.lines = {l};
		int const t = s.size();
		x.from = wr::ms(0, t / 60, t % 60, 0);
		x.to = wr::ms(0, t / 60, t % 60, 480);
		s.push_back(x);
		n -= blocks;
	}
	return s;
}

static string show_subs(const vector<sub::Subtitle>& s)
{
	std::ostringstream o;
	o.imbue(std::locale::classic());
	for (auto& i: s) {
		o << i.from << " " << i.to << "\n";
		for (auto& j: i.lines) {
			auto& v = j.vertical_position;
			o << j.horizontal_position.reference << " " << j.horizontal_position.proportional << (v.proportional ? mc::format(" p%g", *v.proportional) : "") << (v.line ? mc::format(" l%d", *v.line) : "") << (v.lines ? mc::format("/%d", *v.lines) : "") << (v.reference ? mc::format(" r%d", (int) *v.reference) : "");
			for (auto& k: j.blocks) o << " " << k.text << k.bold << k.italic << k.underline << k.colour.r << k.colour.g << k.colour.b << (k.font ? *k.font : "-");
			o << "\n";
		}
	}
	return o.str();
}

/** The subtitles with so many blocks, and the file that they should make */
struct Work { vector<sub::Subtitle> subs; string file, shown; };
static Work& work(int n)
{
	static std::map<int, Work> all;
	auto i = all.find(n);
	if (i != all.end()) return i->second;
	Work w;
	w.subs = wr::make(make_subs(n));
	string const p = dir() + "/reference.stl";
	wr::write(w.subs, wr::Meta(), p);
	w.file = wr::slurp(p);
	w.shown = show_subs(w.subs);
	if ((int) w.file.size() != 1024 + 128 * n) { fprintf(stderr, "a file of %d blocks is of %zu bytes\n", n, w.file.size()); abort(); }
	unlink(p.c_str());
	return all[n] = w;
}

enum Result { RETURNED, THREW, THREW_OTHER };
static Result attempt(const vector<sub::Subtitle>& s, const string& path, string* what = nullptr)
{
	try {
		wr::write(s, wr::Meta(), path);
		return RETURNED;
	} catch (std::exception& e) {
		if (what) *what = e.what();
		return THREW;
	} catch (...) {
		return THREW_OTHER;
	}
}

/** Check what happened, with the file as it is now */
static void judge(mc::Ctx& c, Result r, Work& w, const string& path, bool must_throw)
{
	c.step();
	c.compared();
	c.check(r != THREW_OTHER, "exception", "it threw something which is not a std::exception");
	if (r == RETURNED) {
		c.check(!must_throw, "unreported", "the failure was not reported");
		string const got = wr::slurp(path);
		size_t d = 0;
		while (d < got.size() && d < w.file.size() && got[d] == w.file[d]) ++d;
		c.check(got == w.file, "incomplete", mc::format("it returned normally but the file is of %zu bytes, not %zu; the first difference is at %zu", got.size(), w.file.size(), d));
	}
	c.outcome(r);
}

static void run(mc::Ctx& c, int n, Plan p, const string& path, const string& before, long limit = -1)
{
	auto& w = work(n);
	Result r = RETURNED;
	bool must = false;
	balanced(c, [&]() {
		unlink(path.c_str());
		if (!before.empty()) {
			FILE* f = fopen(path.c_str(), "wb");
			fwrite(before.data(), 1, before.size(), f);
			fclose(f);
		}
		struct rlimit old;
		if (limit >= 0) {
			getrlimit(RLIMIT_FSIZE, &old);
			struct rlimit const l = {(rlim_t) limit, old.rlim_max};
			setrlimit(RLIMIT_FSIZE, &l);
		}
		plan = p;
		plan.active = true;
		r = attempt(w.subs, path);
		plan.active = false;
		if (limit >= 0) setrlimit(RLIMIT_FSIZE, &old);
		must = plan.close_failed || (limit >= 0 && limit < (long) w.file.size()) || (plan.write_failed && !plan.once);
	});
	judge(c, r, w, path, must);
	c.check(show_subs(w.subs) == w.shown, "argument", "the subtitles were changed");
	c.state(mc::hash(mc::format("%d %ld %d %d %d %d %d %d %zu", n, limit, plan.writes, p.fail_write, p.error, p.short_write, p.keep, p.fail_close, before.size())));
}

static vector<int> const& sizes(bool thorough)
{
	static vector<int> const q = {0, 1, 2, 5, 55, 56, 57, 64, 120, 130}, t = {0, 1, 2, 3, 4, 5, 6, 7, 20, 54, 55, 56, 57, 58, 63, 64, 65, 100, 119, 120, 121, 130, 250, 600, 2000};
	return thorough ? t : q;
}

/** The disk fills up after every number of bytes */
static void limits(mc::Ctx& c)
{
	static vector<int> const small = {0, 1, 5}, large = {130, 600};
	bool const big = c.pick(2);
	int const n = big ? c.of(large) : c.of(small);
	int const step = big && !c.thorough() ? n > 200 ? 509 : 97 : 1;
	int const at = c.pick((1024 + 128 * n) / step + 2);
	int const before = c.pick(2);
	if (!c.go()) return;
	c.input(mc::format("%d blocks written when there is room for %d bytes%s", n, at * step, before ? " over another file" : ""));
	run(c, n, Plan(), dir() + "/limit.stl", before ? string(100000, 'x') : "", at * step);
}

/** Each write fails */
static void writes(mc::Ctx& c)
{
	int const n = c.of(sizes(c.thorough()));
	int const at = c.pick(c.thorough() ? 40 : 8);
	Plan p;
	p.fail_write = at;
	p.error = c.of(vector<int>{EIO, ENOSPC, EFBIG, EDQUOT, EPIPE, EBADF, EAGAIN});
	p.once = c.pick(2);
	if (!c.go()) return;
	c.input(mc::format("%d blocks with write %d failing%s with error %d", n, at, p.once ? " once" : "", p.error));
	run(c, n, p, dir() + "/write.stl", "");
}

/** Each write is cut short by a signal or otherwise */
static void shorts(mc::Ctx& c)
{
	int const n = c.of(sizes(c.thorough()));
	Plan p;
	p.short_write = c.pick(8);
	p.keep = c.of(vector<int>{1, 2, 127, 128, 500, 1000, 1024, 4096, 8190, 0, -1, -2, -127, -128, -1000});
	if (p.keep == 0) p.keep = 8191;
	p.all_short = c.pick(2);
	int const then = c.pick(3);
	if (!c.go()) return;
	if (then) {
		/* and then another fails; or is interrupted */
		p.fail_write = p.short_write + 1;
		p.error = then == 1 ? ENOSPC : EINTR;
		p.once = then == 2;
	}
	c.input(mc::format("%d blocks with write %d%s writing just %d bytes%s", n, p.short_write, p.all_short ? " and later ones" : "", p.keep, then == 1 ? " and the next one failing" : then == 2 ? " and the next one interrupted" : ""));
	run(c, n, p, dir() + "/short.stl", "");
}

/** Make close() of a descriptor fail in this process, for good */
static void forbid_close(int fd)
{
	struct sock_filter f[] = {
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_close, 0, 3),
		BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, args[0])),
		BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, (unsigned) fd, 0, 1),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ERRNO | EIO),
		BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
	};
	struct sock_fprog const p = {sizeof f / sizeof f[0], f};
	prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0);
	if (prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p)) _exit(50);
}

/** Closing fails, as the program sees it (how 0) and as the kernel says (how 1) */
static void closing(mc::Ctx& c)
{
	int const n = c.of(sizes(c.thorough()));
	int const how = c.pick(2), before = c.pick(2);
	if (!c.go()) return;
	c.input(mc::format("%d blocks with close failing%s", n, how ? " in the kernel" : ""));
	string const path = dir() + "/close.stl";
	if (how == 0) {
		Plan p;
		p.fail_close = true;
		run(c, n, p, path, before ? string(100000, 'x') : "");
		return;
	}
	auto& w = work(n);
	pid_t const p = fork();
	if (p == 0) {
		/* the descriptor which will be used next */
		int const fd = open("/dev/null", O_RDONLY);
		close(fd);
		forbid_close(fd);
		Result const r = attempt(w.subs, path);
		/* if it was not that one there is nothing to see */
		bool const used = fcntl(fd, F_GETFD) != -1;
		_exit(!used ? 60 : r == THREW ? 0 : r == RETURNED ? 1 : 2);
	}
	int status;
	waitpid(p, &status, 0);
	c.step();
	c.compared();
	c.state(mc::hash(mc::format("close %d", n)));
	c.outcome(mc::hash(mc::format("%d", status)));
	if (WIFEXITED(status) && (WEXITSTATUS(status) == 60 || WEXITSTATUS(status) == 50)) return;
	c.check(WIFEXITED(status), "killed", mc::format("the process ended with status %x", status));
	c.check(WEXITSTATUS(status) == 0, "unreported", WEXITSTATUS(status) == 1 ? "the failure was not reported" : "it threw something which is not a std::exception");
}

/** Places where no file can be written */
static void places(mc::Ctx& c)
{
	static vector<string> const names = {"D", "missing/x.stl", "f/x.stl", "", "loop", "L", "full", "busy", "D/", "f/", "x/../y.stl", "unreadable", "descriptors", "gone", "self"};
	int const n = c.of(vector<int>{0, 1, 60});
	auto& name = c.of(names);
	if (!c.go()) return;
	c.input(mc::format("%d blocks to ", n) + name);
	auto& w = work(n);
	string const d = dir();
	mkdir((d + "/D").c_str(), 0777);
	FILE* f = fopen((d + "/f").c_str(), "w");
	fclose(f);
	if (symlink("loop", (d + "/loop").c_str())) {}
	if (symlink("missing/x", (d + "/gone").c_str())) {}
	string path = name.empty() ? "" : d + "/" + name;
	pid_t busy = -1;
	struct rlimit old;
	if (name == "L") path = d + "/" + string(300, 'x');
	/* not by its real name, so that it cannot be replaced */
	if (name == "full" && symlink("/dev/full", path.c_str())) {}
	if (name == "self") path = d + "/D/.";
	if (name == "unreadable") {
		/* not even root can make a file here */
		path = "/proc/self/x.stl";
	}
	if (name == "busy") {
		if (system(("cp /bin/sleep '" + path + "'").c_str())) return;
		busy = fork();
		if (busy == 0) { execl(path.c_str(), "sleep", "10", (char*) nullptr); _exit(1); }
		for (int i = 0; i < 1000; ++i) {
			/* wait until it is running */
			char l[4096];
			ssize_t const k = readlink(mc::format("/proc/%d/exe", busy).c_str(), l, sizeof l);
			if (k > 0 && string(l, k) == path) break;
			usleep(1000);
		}
	}
	Result r = RETURNED;
	string what;
	balanced(c, [&]() {
		if (name == "descriptors") {
			getrlimit(RLIMIT_NOFILE, &old);
			struct rlimit const l = {3, old.rlim_max};
			setrlimit(RLIMIT_NOFILE, &l);
		}
		r = attempt(w.subs, path, &what);
		if (name == "descriptors") setrlimit(RLIMIT_NOFILE, &old);
	});
	if (busy > 0) {
		kill(busy, SIGKILL);
		waitpid(busy, nullptr, 0);
		unlink(path.c_str());
	}
	c.step();
	c.state(mc::hash(name, n));
	c.outcome(mc::hash(what));
	c.compared();
	c.check(r != THREW_OTHER, "exception", "it threw something which is not a std::exception");
	c.check(r == THREW, "unreported", "it returned normally");
	c.check(show_subs(w.subs) == w.shown, "argument", "the subtitles were changed");
}

/** Something is already there */
static void previous(mc::Ctx& c)
{
	int const n = c.of(sizes(c.thorough()));
	int const kind = c.pick(6), size = c.of(vector<int>{1, 127, 128, 1023, 1024, 1025, 1151, 1152, 1153, 2000, 8191, 8192, 20000, 300000}), again = c.pick(2);
	if (!c.go()) return;
	auto& w = work(n);
	c.input(mc::format("%d blocks over a file of %d bytes, kind %d%s", n, size, kind, again ? ", twice" : ""));
	string const path = dir() + "/previous.stl", other = dir() + "/other";
	unlink(path.c_str());
	unlink(other.c_str());
	string old(size, 'x');
	if (kind == 5) old = w.file + old;
	FILE* f = fopen((kind == 1 || kind == 2 ? other : path).c_str(), "wb");
	fwrite(old.data(), 1, old.size(), f);
	fclose(f);
	if (kind == 1 && symlink("other", path.c_str())) abort();
	if (kind == 2 && link(other.c_str(), path.c_str())) abort();
	if (kind == 3) chmod(path.c_str(), 0400);
	if (kind == 4) { unlink(path.c_str()); if (symlink("new", path.c_str())) abort(); unlink((dir() + "/new").c_str()); }
	Result r = RETURNED;
	balanced(c, [&]() { r = attempt(w.subs, path); });
	/* which only root may write to */
	if (kind == 3 && geteuid() != 0 && r == THREW) {
		c.compared();
		return;
	}
	c.check(r == RETURNED, "refused", "it could not be written");
	judge(c, r, w, path, false);
	if (again) {
		auto& v = work(1);
		r = attempt(v.subs, path);
		judge(c, r, v, path, false);
	}
	c.state(mc::hash(mc::format("previous %d %d %d %d", n, kind, size, again)));
}

/** Each allocation fails */
static void allocations(mc::Ctx& c)
{
	int const n = c.of(vector<int>{0, 1, 2, 5, 12, 60});
	int const before = c.pick(2);
	if (!c.go()) return;
	auto& w = work(n);
	string const path = dir() + "/allocation.stl";
	for (int i = 0; ; ++i) {
		c.input(mc::format("%d blocks with allocation %d failing", n, i));
		Result r = RETURNED;
		bool failed = false;
		balanced(c, [&]() {
			unlink(path.c_str());
			if (before) {
				FILE* f = fopen(path.c_str(), "wb");
				fwrite(&w.file[0], 1, 700, f);
				fclose(f);
			}
			/* copying the argument is the caller's business */
			boost::filesystem::path const p(path);
			wr::Meta m;
			count = 0;
			fail_at = i;
			try {
				sub::write_stl_binary(w.subs, m.fps, m.language, m.opt, m.oet, m.tpt, m.tet, m.tn, m.tcd, m.cd, m.rd, m.rn, m.co, m.pub, m.en, m.ecd, p);
				r = RETURNED;
			} catch (std::exception& e) {
				r = THREW;
			} catch (...) {
				r = THREW_OTHER;
			}
			failed = count > i;
			fail_at = -1;
		});
		judge(c, r, w, path, false);
		c.state(mc::hash(mc::format("allocation %d %d", n, i)));
		if (!failed) break;
	}
	c.check(show_subs(w.subs) == w.shown, "argument", "the subtitles were changed");
}

/** Things which cannot be written */
static void refused(mc::Ctx& c)
{
	int const n = c.pick(4), kind = c.pick(12), before = c.pick(2), where = c.pick(3);
	if (!c.go()) return;
	auto s = wr::make(make_subs(n));
	sub::Subtitle x = wr::make(make_subs(1))[0];
	wr::Meta m;
	switch (kind) {
	case 0: x.from = sub::Time::from_hmsf(0, 0, 1, 1); break;
	case 1: x.lines[0].blocks[0].text = string(30000, 'x'); break;
	case 2: m.opt = string(33, 'x'); break;
	case 3: m.cd = "12345"; break;
	case 4: m.rn = 100; break;
	case 5: m.co = "GB"; break;
	case 6: m.ecd = string(33, 'x'); break;
	case 7: x.to = sub::Time(); break;
	case 8: x.lines[0].vertical_position = sub::VerticalPosition(); break;
	case 9: if (c.thorough() || n == 0) s.insert(s.end(), 100000, x); break;
	case 10: m.rd = ""; break;
	case 11: x.from = sub::Time::from_hms(300, 0, 0, 0); break;
	}
	s.insert(s.begin() + (where == 0 ? 0 : where == 1 ? s.size() / 2 : s.size()), x);
	string const path = dir() + "/refused.stl";
	c.input(mc::format("%d subtitles and something unsuitable of kind %d", n, kind));
	string const shown = show_subs(s);
	int r = 0;
	balanced(c, [&]() {
		unlink(path.c_str());
		if (before) {
			FILE* f = fopen(path.c_str(), "wb");
			fwrite("hello", 1, 5, f);
			fclose(f);
		}
		try {
			wr::write(s, m, path);
			r = 0;
		} catch (std::exception& e) {
			r = 1;
		} catch (...) {
			r = 2;
		}
	});
	c.step();
	c.compared();
	c.outcome(r);
	c.state(mc::hash(mc::format("refused %d %d %d %d %d", n, kind, before, where, r)));
	c.check(r != 2, "exception", "it threw something which is not a std::exception");
	c.check(show_subs(s) == shown, "argument", "the subtitles were changed");
	/* If it was written after all it was all written */
	if (r == 0) c.check((wr::slurp(path).size() - 1024) % 128 == 0, "incomplete", mc::format("it returned normally but the file is of %zu bytes", wr::slurp(path).size()));
}

int main(int argc, char** argv)
{
	std::cout.rdbuf(nullptr);
	signal(SIGXFSZ, SIG_IGN);
	signal(SIGPIPE, SIG_IGN);
	mc::Options o;
	o.property = "C16";
	return mc::main(argc, argv, o, {
		{"limits", 0, 0, limits},
		{"writes", 0, 0, writes},
		{"shorts", 0, 0, shorts},
		{"closing", 0, 0, closing},
		{"places", 0, 0, places},
		{"previous", 0, 0, previous},
		{"allocations", 0, 0, allocations},
		{"refused", 0, 0, refused},
	}, "files of 0 to 130 (thorough 2000) blocks with room for every number of bytes (large files in the quick tier: every 97th), with each write failing in 7 ways for good and once, each write cut short in 15 ways and followed by a failing or interrupted one, with closing failing, in 15 places where no file can be written, over 6 kinds of previous file of 14 sizes, with each allocation failing, and with 12 kinds of unsuitable argument at each place; after each the exception, the whole of the file, descriptors, allocations and the argument are checked",
	{"a write which fails once may be tried again"});
}
