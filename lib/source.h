/* Ways to supply bytes to a reader, and a complete description of what it made of them */
#ifndef VERIF_SOURCE_H
#define VERIF_SOURCE_H

#include "piece.h"
#include "reader.h"
#include "subrip_reader.h"
#include "ssa_reader.h"
#include "web_vtt_reader.h"
#include "stl_text_reader.h"
#include "stl_binary_reader.h"
#include "exceptions.h"
#include <cerrno>
#include <cstdio>
#include <cxxabi.h>
#include <memory>
#include <sstream>
#include <streambuf>
#include <typeinfo>

namespace src {

enum Kind { SUBRIP, SSA, VTT, STL_TEXT, STL_BINARY };
static char const* const kind_names[] = {"SubRip", "SSA", "WebVTT", "text STL", "binary STL"};

/** How reads are served: read i returns at most sizes[i] bytes (the last one repeated); buffer is the size given to setvbuf (0 unbuffered, -1 default) */
struct Chunks {
	vector<int> sizes;
	int buffer = -1;
};

struct Feed {
	string data;
	Chunks chunks;
	size_t pos = 0, n = 0;

	size_t next(size_t want)
	{
		size_t m = chunks.sizes.empty() ? want : chunks.sizes[std::min(n, chunks.sizes.size() - 1)];
		++n;
		return std::min({want, m, data.size() - pos});
	}
};

/** A stream which cannot seek */
class Buf : public std::streambuf
{
public:
	explicit Buf(const Feed& f) : _f(f), _b(65536) {}
protected:
	int_type underflow() override
	{
		size_t n = _f.next(_b.size());
		if (!n) return traits_type::eof();
		memcpy(&_b[0], _f.data.data() + _f.pos, n);
		_f.pos += n;
		setg(&_b[0], &_b[0], &_b[0] + n);
		return traits_type::to_int_type(_b[0]);
	}
private:
	Feed _f;
	vector<char> _b;
};

inline FILE* open(Feed& f)
{
	cookie_io_functions_t io = {};
	io.read = [](void* c, char* p, size_t n) -> ssize_t {
		auto& f = *static_cast<Feed*>(c);
		size_t m = f.next(n);
		memcpy(p, f.data.data() + f.pos, m);
		f.pos += m;
		return m;
	};
	FILE* s = fopencookie(&f, "r", io);
	if (!s) throw std::bad_alloc();
	if (f.chunks.buffer == 0) setvbuf(s, nullptr, _IONBF, 0);
	if (f.chunks.buffer > 0) setvbuf(s, nullptr, _IOFBF, f.chunks.buffer);
	return s;
}

template <class T> string show_opt(const boost::optional<T>& o)
{
	std::ostringstream s;
	s.imbue(std::locale::classic());
	if (o) s << *o; else s << "-";
	return s.str();
}

/** Any time, whether or not it has a rate */
inline string show_any(const sub::Time& t)
{
	std::ostringstream s;
	s.imbue(std::locale::classic());
	s << t;
	return s.str();
}

inline string show_all(const sub::RawSubtitle& r)
{
	auto col = [](const sub::Colour& c) { return mc::format("%.7g,%.7g,%.7g", c.r, c.g, c.b); };
	return "\"" + r.text + "\" " + show_any(r.from) + " -> " + show_any(r.to) + mc::format(" %d%d%d ", r.bold, r.italic, r.underline) + col(r.colour) +
		" font " + (r.font ? *r.font : "-") + " size " + show_opt(r.font_size.proportional()) + "/" + show_opt(r.font_size.points()) +
		" effect " + (r.effect ? mc::format("%d", (int) *r.effect) : "-") + (r.effect_colour ? col(*r.effect_colour) : "-") +
		mc::format(" h%d:%.7g", (int) r.horizontal_position.reference, r.horizontal_position.proportional) +
		" v" + (r.vertical_position.reference ? mc::format("%d", (int) *r.vertical_position.reference) : "-") + ":" + show_opt(r.vertical_position.proportional) + " " + show_opt(r.vertical_position.line) + "/" +
		show_opt(r.vertical_position.lines) + " fade " + (r.fade_up ? show_any(*r.fade_up) : "-") + "/" + (r.fade_down ? show_any(*r.fade_down) : "-") + "\n";
}

inline string show_reader(const sub::Reader& r)
{
	string o;
	for (auto& i: r.metadata()) o += i.first + "=" + i.second + "\n";
	for (auto& i: r.subtitles()) o += show_all(i);
	return o;
}

/** what a call gives: its value or its error */
template <class F> string outcome(F f)
{
	string o;
	auto list = [&](const std::list<string>& l) { for (auto& i: l) o += "\n | " + i; };
	auto name = [](const std::exception& e) {
		int st;
		char* n = abi::__cxa_demangle(typeid(e).name(), nullptr, nullptr, &st);
		string s = n ? n : typeid(e).name();
		free(n);
		return "ERROR " + s + ": ";
	};
	try {
		return f();
	} catch (sub::SubripError& e) {
		o = name(e) + e.what() + mc::format(" line %d", e.line_number());
		list(e.context());
	} catch (sub::WebVTTError& e) {
		o = name(e) + e.what();
		list(e.context());
	} catch (std::exception& e) {
		o = name(e) + e.what();
	}
	return o;
}

inline std::shared_ptr<sub::Reader> from_string(Kind k, const string& s)
{
	std::istringstream i(s);
	switch (k) {
	case SUBRIP: return std::make_shared<sub::SubripReader>(s);
	case SSA: return std::make_shared<sub::SSAReader>(s);
	case VTT: return std::make_shared<sub::WebVTTReader>(s);
	case STL_TEXT: return std::make_shared<sub::STLTextReader>(i);
	case STL_BINARY: return std::make_shared<sub::STLBinaryReader>(i);
	}
	return {};
}

inline std::shared_ptr<sub::Reader> from_file(Kind k, FILE* f)
{
	switch (k) {
	case SUBRIP: return std::make_shared<sub::SubripReader>(f);
	case SSA: return std::make_shared<sub::SSAReader>(f);
	case VTT: return std::make_shared<sub::WebVTTReader>(f);
	case STL_BINARY: return std::make_shared<sub::STLBinaryReader>(f);
	default: return {};
	}
}

inline std::shared_ptr<sub::Reader> from_stream(Kind k, std::istream& s)
{
	if (k == STL_TEXT) return std::make_shared<sub::STLTextReader>(s);
	if (k == STL_BINARY) return std::make_shared<sub::STLBinaryReader>(s);
	return {};
}

/** Result of reading s as a whole */
inline string read(Kind k, const string& s)
{
	return outcome([&]() { return show_reader(*from_string(k, s)); });
}

/** Result of reading s supplied through a FILE or (where there is no such constructor, or if stream) a stream */
inline string read(Kind k, const string& s, const Chunks& c, bool stream = false)
{
	Feed f{s, c};
	if (stream || k == STL_TEXT) {
		if (k != STL_TEXT && k != STL_BINARY) return read(k, s);
		return outcome([&]() {
			Buf b(f);
			std::istream i(&b);
			return show_reader(*from_stream(k, i));
		});
	}
	FILE* file = open(f);
	string o = outcome([&]() { return show_reader(*from_file(k, file)); });
	fclose(file);
	return o;
}

}

#endif
