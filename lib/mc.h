/* A small stateless model checker: exhaustive depth-first exploration of choice sequences.
 *
 * A scenario is a function of a Ctx.  It asks the Ctx for choices (pick() is a free choice,
 * dev() a deviation from the default 0 that costs one unit of the scenario's bound), builds
 * one execution from them, calls go() and, if that returns true, runs the execution on the
 * real code and checks it, reporting disagreements with fail().  The explorer calls it again
 * and again until every choice sequence within the bound has been taken, bound 0 first.
 */
#ifndef VERIF_MC_H
#define VERIF_MC_H

#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace mc {

struct Failure {};    // thrown by fail() to abandon an execution

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 1469598103934665603ull);
inline uint64_t hash(const std::string& s, uint64_t seed = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), seed); }
inline uint64_t mix(uint64_t a, uint64_t b) { return (a ^ (b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2))) * 0xff51afd7ed558ccdull; }

class Ctx {
public:
	/** Free choice among n alternatives: all are explored. */
	int pick(int n);
	/** Choice among n alternatives of which 0 is the default and any other costs one deviation. */
	int dev(int n);
	/** As pick, from a list. */
	template <class T> const T& of(const std::vector<T>& v) { return v[pick((int) v.size())]; }
	template <class T> const T& devof(const std::vector<T>& v) { return v[dev((int) v.size())]; }

	/** All choices that define the execution have been made.  @return true to execute it now. */
	bool go();

	/** Describe the execution (for reports, samples and crash attribution); call after go(). */
	void input(const std::string& s);
	/** Count a state of the model reached (deduplicated by hash). */
	void state(uint64_t h);
	/** Count transitions taken (model steps whose effect is compared with the code). */
	void step(int n = 1);
	/** Count a complete execution whose observations were compared with the code. */
	void compared(int n = 1);
	/** Count distinct observed outcomes. */
	void outcome(uint64_t h);
	/** Report a violation; key identifies it (for known findings). Throws Failure. */
	[[noreturn]] void fail(const std::string& key, const std::string& message);
	void check(bool ok, const std::string& key, const std::string& message) { if (!ok) fail(key, message); }

	/** @return true if time has run out: what is left to do in this execution should be left (and the evidence will say so) */
	bool late();
	bool replaying() const { return _replaying; }
	bool thorough() const;
	unsigned long seed() const;

	// internal
	struct Point { int n; int taken; int cost; };
	std::vector<Point> trail;
	size_t pos = 0;
	int used = 0;
	int bound = 0;
	bool exact = true;
	bool started = false;
	bool _replaying = false;
	uint64_t leaf = 0;
};

struct Scenario {
	std::string name;
	int quick;        // deviation bound in the quick tier (-1: not run)
	int thorough;     // deviation bound in the thorough tier (-1: not run)
	std::function<void (Ctx&)> body;
	/** true if choices are made after go(), i.e. while the code runs */
	bool post = false;
};

struct Options {
	const char* property;
	const char* level = "model_checking";
	int workers = 8;
	double hang_seconds = 60;
	double time_limit_quick = 500;
	double time_limit_thorough = 6000;
};

int main(int argc, char** argv, const Options&, const std::vector<Scenario>&, const std::string& rule,
	 const std::vector<std::string>& assumptions);

/** Sizes around the limits that counters and buffers might have */
inline const std::vector<int>& big_sizes()
{
	static const std::vector<int> s = {
		255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 9999, 10000, 10001,
		16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537
	};
	return s;
}

/** printable form of arbitrary bytes */
std::string show(const std::string&, size_t max = 4000);
std::string json(const std::string&);
std::string format(const char* f, ...) __attribute__((format(printf, 1, 2)));
/** Directory for scratch files of this process (removed at exit by the parent) */
const std::string& scratch();

}

#endif
