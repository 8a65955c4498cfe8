/* C23: failures to read.  Every read of every document is made to fail in turn, in every kind of source. */
#include "source.h"
#include "stl_model.h"
#include "reader_factory.h"
#include <dlfcn.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/syscall.h>
#include <unistd.h>

/** A source whose reads return at most chunk bytes, and which fails when it has returned `good' bytes: always, or just once */
struct Source {
	string data;
	size_t good = 0, chunk = 0, pos = 0;
	bool once = false;
	bool failed = false;
	int error = EIO;

	ssize_t read(char* p, size_t n)
	{
		if (pos >= good && !(once && failed)) {
			failed = true;
			errno = error;
			return -1;
		}
		size_t const limit = failed ? data.size() : std::min(good, data.size());
		n = std::min({n, chunk, limit - pos});
		memcpy(p, data.data() + pos, n);
		pos += n;
		return n;
	}
};

/** The source which stands for the file being opened by name */
static Source* by_name = nullptr;
static int by_name_fd = -1;

static FILE* open_source(Source* s)
{
	cookie_io_functions_t io = {};
	io.read = [](void* c, char* p, size_t n) -> ssize_t { return static_cast<Source*>(c)->read(p, n); };
	io.seek = [](void* c, off64_t* o, int whence) -> int {
		auto s = static_cast<Source*>(c);
		off64_t const to = whence == SEEK_SET ? *o : whence == SEEK_CUR ? (off64_t) s->pos + *o : (off64_t) s->data.size() + *o;
		if (to < 0) { errno = EINVAL; return -1; }
		s->pos = *o = to;
		return 0;
	};
	return fopencookie(s, "r", io);
}

/* Stand-ins for what the library may use to open and read a file by name */
static FILE* fopen_from(const char* path, const char* mode, void* caller)
{
	typedef FILE* (*F)(const char*, const char*);
	static F const real = (F) dlsym(RTLD_NEXT, "fopen64");
	size_t const n = strlen(path);
	if (by_name && n > 11 && strncmp(path + n - 11, "/source.", 8) == 0) {
		/* The C++ library reads from the descriptor of the FILE */
		Dl_info i;
		if (!dladdr(caller, &i) || !i.dli_fname || !strstr(i.dli_fname, "libstdc++")) return open_source(by_name);
	}
	return real(path, mode);
}
FILE* stand_in_1(const char*, const char*) asm("fopen");
FILE* stand_in_2(const char*, const char*) asm("fopen64");
FILE* stand_in_1(const char* path, const char* mode) { return fopen_from(path, mode, __builtin_return_address(0)); }
FILE* stand_in_2(const char* path, const char* mode) { return fopen_from(path, mode, __builtin_return_address(0)); }

extern "C" {
ssize_t read(int fd, void* p, size_t n)
{
	if (by_name && fd >= 0) {
		/* is this the file? */
		struct stat a, b;
		if (fd != by_name_fd && fstat(by_name_fd, &a) == 0 && fstat(fd, &b) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev) {
			/* Go by the descriptor's position so that seeking works */
			off_t const at = lseek(fd, 0, SEEK_CUR);
			by_name->pos = at;
			ssize_t const r = by_name->read(static_cast<char*>(p), n);
			if (r > 0) lseek(fd, at + r, SEEK_SET);
			return r;
		}
	}
	return syscall(SYS_read, fd, p, n);
}
}

using namespace src;

/** A stream buffer over a Source.  how: 0 fails by throwing; 1 fails by throwing something that is not a std::exception */
class Bad : public std::streambuf
{
public:
	Bad(Source& s, int how) : _s(s), _how(how), _b(65536) {}
protected:
	int_type underflow() override
	{
		ssize_t n = _s.read(&_b[0], _b.size());
		if (n < 0) {
			if (_how) throw 42;
			throw std::ios_base::failure("cannot read");
		}
		if (!n) return traits_type::eof();
		setg(&_b[0], &_b[0], &_b[0] + n);
		return traits_type::to_int_type(_b[0]);
	}
private:
	Source& _s;
	int _how;
	vector<char> _b;
};

static vector<string> const& parts(Kind k)
{
	static vector<string> const p[5] = {
		{"1\n00:00:01,000 --> 00:00:02,500\na\n<i>b\n\n", "2\r\n01:02:03,004 --> 05:06:07,089\r\n\xe2\x80\xa8{\\an8}z\r\n\r\n", "3\n00:00:01,000 --> x\n", "\n4\n00:00:01,100 --> 00:00:02,200\n<font color=\"#ff0000\">q"},
		{"[Script Info]\nPlayResX: 10\nTitle: a\n", "[V4+ Styles]\nFormat: Name,Fontsize,Italic\nStyle: Default,12,-1\n", "[Events]\nFormat: Start,End,Text\nDialogue: 0:00:01.00,0:00:02.50,a\\Nb\n", "Dialogue: 0:00:03.00,0:00:04.50,{\\i1}c"},
		{"00:00:01.000 --> 00:00:02.500\na\nb\n\n", "NOTE\nx\n\n", "id\n00:00:03.000 --> 00:00:04.500 line:0\r\n\xe2\x80\xa8z\r\n\r\n", "00:x -->\n"},
		{"00:00:01:00,00:00:02:12,a|b\n", "$FontName=Arial\n$FontSize=12\n", "//x\n\n", "00:00:03:00,00:00:04:12,^Ic^I"},
		{"a", "\x80" "b\x81\x8a" "c", "", "d"},
	};
	return p[k];
}

static string document(mc::Ctx& c, Kind k, int min, int max)
{
	int const n = min + c.pick(max - min + 1);
	string d = k == VTT ? "WEBVTT\n\n" : "";
	vector<stl::Tti> t;
	for (int i = 0; i < n; ++i) {
		string const& p = c.of(parts(k));
		if (k == STL_BINARY) {
			stl::Tti x;
			x.sn = i;
			x.in.m = x.out.m = i;
			x.text = p;
			t.push_back(x);
		} else {
			d += p;
		}
	}
	return k == STL_BINARY ? stl::file(stl::Gsi(), t) : d;
}

enum How { FROM_FILE, FROM_FILE_UNBUFFERED, FROM_STREAM, FROM_STREAM_INT, BY_NAME, BY_UPPER_NAME };

static void run(mc::Ctx& c, Kind k, const string& d, How how, size_t good, size_t chunk, bool once, int error = EIO)
{
	static char const* const hows[] = {"FILE", "unbuffered FILE", "stream", "stream which throws an int", "named file", "named file"};
	c.input(string(kind_names[k]) + mc::format(" from a %s whose reads of %d fail after %d%s: ", hows[how], (int) chunk, (int) good, once ? " once" : "") + d);
	Source s;
	s.data = d;
	s.good = good;
	s.chunk = chunk;
	s.once = once;
	s.error = error;
	string const want = read(k, d);
	string got;
	if (how == FROM_FILE || how == FROM_FILE_UNBUFFERED) {
		FILE* f = open_source(&s);
		if (how == FROM_FILE_UNBUFFERED) setvbuf(f, nullptr, _IONBF, 0);
		got = outcome([&]() { return show_reader(*from_file(k, f)); });
		fclose(f);
	} else if (how == FROM_STREAM || how == FROM_STREAM_INT) {
		Bad b(s, how == FROM_STREAM_INT);
		std::istream i(&b);
		got = outcome([&]() { return show_reader(*from_stream(k, i)); });
	} else {
		static string path;
		static pid_t owner = 0;
		if (owner != getpid()) {
			owner = getpid();
			string const dir = mc::scratch() + mc::format("/n.%d", owner);
			mkdir(dir.c_str(), 0777);
			path = dir + "/source";
		}
		string const real = path + "." + (k == SUBRIP ? how == BY_NAME ? "srt" : "SRT" : how == BY_NAME ? "stl" : "STL");
		int const f = open(real.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0666);
		if (f < 0 || write(f, d.data(), d.size()) != (ssize_t) d.size()) { perror("write"); abort(); }
		by_name_fd = f;
		by_name = &s;
		got = outcome([&]() {
			auto r = sub::reader_factory(real);
			return r ? show_reader(*r) : string("nothing");
		});
		by_name = nullptr;
		close(f);
	}
	c.step();
	c.state(mc::hash(got, mc::mix(mc::hash(d), good * 8 + how)));
	c.outcome(mc::hash(got));
	c.compared();
	if (!s.failed) c.check(got == want, "no-failure", "though no read failed it gives\n" + got + "\nrather than\n" + want);
	else if (got.compare(0, 6, "ERROR ") != 0) c.check(got == want, "partial", "though reading failed it gives\n" + got + "\nand for the whole of the input it gives\n" + want);
}

static bool possible(Kind k, int how)
{
	bool const stream = how == FROM_STREAM || how == FROM_STREAM_INT, name = how >= BY_NAME;
	if (k == STL_TEXT) return stream || name;
	if (k == STL_BINARY) return true;
	if (k == SUBRIP) return !stream;
	return !stream && !name;
}

static void text(mc::Ctx& c, int max)
{
	static vector<size_t> const chunks = {1u << 20, 1, 7};
	Kind const k = (Kind) c.pick(4);
	How const how = (How) c.pick(6);
	string const d = document(c, k, 0, max);
	size_t const good = c.pick(d.size() + 1);
	size_t const chunk = c.of(chunks);
	bool const once = c.pick(2);
	if (!c.go() || !possible(k, how)) return;
	run(c, k, d, how, good, chunk, once);
}

static void binary(mc::Ctx& c, int max)
{
	static vector<size_t> const chunks = {1u << 20, 1, 100};
	How const how = (How) c.pick(6);
	string const d = document(c, STL_BINARY, 0, max);
	size_t const good = c.pick(d.size() + 1);
	size_t const chunk = c.of(chunks);
	bool const once = c.pick(2);
	if (!c.go()) return;
	run(c, STL_BINARY, d, how, good, chunk, once);
}

/** Long documents, so that there are many reads */
static void large(mc::Ctx& c)
{
	Kind const k = (Kind) c.pick(5);
	How const how = (How) c.pick(6);
	int const step = c.thorough() ? 37 : 509;
	int const at = c.pick(40000 / step);
	int const error = c.of(vector<int>{EIO, EISDIR, ENOMEM, ESTALE});
	if (!c.go() || !possible(k, how)) return;
	static string docs[5];
	string& d = docs[k];
	if (d.empty()) {
		if (k == STL_BINARY) {
			vector<stl::Tti> t(300);
			for (int i = 0; i < 300; ++i) { t[i].sn = i; t[i].in.m = t[i].out.m = i % 60; t[i].text = mc::format("number %d", i); }
			d = stl::file(stl::Gsi(), t);
		} else {
			d = k == VTT ? "WEBVTT\n\n" : k == SSA ? "[Events]\nFormat: Start,End,Text\n" : "";
			for (int i = 0; d.size() < 39000; ++i) {
				string const sep = k == SUBRIP ? "," : ".";
				if (k == SUBRIP || k == VTT) d += mc::format("%d\n00:%02d:%02d%s000 --> 00:%02d:%02d%s500\nnumber %d\n\n", i, i / 60, i % 60, sep.c_str(), i / 60, i % 60, sep.c_str(), i);
				else if (k == SSA) d += mc::format("Dialogue: 0:%02d:%02d.00,0:%02d:%02d.50,number %d\n", i / 60, i % 60, i / 60, i % 60, i);
				else d += mc::format("00:%02d:%02d:00,00:%02d:%02d:12,number %d\n", i / 60, i % 60, i / 60, i % 60, i);
			}
		}
	}
	run(c, k, d, how, std::min((size_t) (at * step), d.size()), 4096, false, error);
}

/** Binary files which end before all the blocks that their headers announce */
static void truncated(mc::Ctx& c, int max)
{
	static vector<size_t> const chunks = {1u << 20, 1, 100};
	How const how = (How) c.pick(6);
	string d = document(c, STL_BINARY, 0, max);
	size_t const length = c.pick(d.size());
	size_t const chunk = c.of(chunks);
	/* Without a disk format code a name does not say that this is a binary file */
	if (!c.go() || (how >= BY_NAME && length < 11)) return;
	run(c, STL_BINARY, d.substr(0, length), how, length + 1, chunk, false);
	c.check(read(STL_BINARY, d.substr(0, length)).compare(0, 6, "ERROR ") == 0, "truncated", mc::format("though only %d of %d bytes are there it gives\n", (int) length, (int) d.size()) + read(STL_BINARY, d.substr(0, length)));
}

/** Something which opens but cannot be read */
static void directories(mc::Ctx& c)
{
	static vector<string> const names = {"x.srt", "x.stl", "X.SRT", "X.STL", "a b.srt"};
	auto& n = c.of(names);
	if (!c.go()) return;
	string const p = mc::scratch() + mc::format("/d.%d.", getpid()) + n;
	mkdir(p.c_str(), 0777);
	c.input("a directory called " + n);
	string const got = outcome([&]() {
		auto r = sub::reader_factory(p);
		return r ? "a reader of " + show_reader(*r) : string("nothing");
	});
	c.step();
	c.state(mc::hash(n));
	c.outcome(mc::hash(got));
	c.check(got.compare(0, 6, "ERROR ") == 0, "directory", "opening it gives " + got + "\nrather than an error");
	c.compared();
}

int main(int argc, char** argv)
{
	std::cout.rdbuf(nullptr);
	mc::Options o;
	o.property = "C23";
	return mc::main(argc, argv, o, {
		{"text", 0, 0, [](mc::Ctx& c) { text(c, c.thorough() ? 4 : 3); }},
		{"binary", 0, 0, [](mc::Ctx& c) { binary(c, c.thorough() ? 3 : 1); }},
		{"large", 0, 0, large},
		{"truncated", 0, 0, [](mc::Ctx& c) { truncated(c, c.thorough() ? 3 : 2); }},
		{"directories", 0, 0, directories},
	}, "every document of up to 3 (thorough 4) parts in the 4 text formats, and of up to 1 (3) blocks in the binary one, from every kind of source (FILE, unbuffered FILE, streams, files opened by name), with reads of 3 sizes made to fail after every number of bytes, for good or once; documents of about 39000 bytes with a failure after every 509th (37th) byte and 4 errors; every truncation of a binary file of up to 2 (3) blocks; directories opened as files",
	{"if the read which fails is the one that would have found the end of the file either outcome is accepted", "if a read fails once and all the bytes are then read the contents may be returned"});
}
