/* C10: times */
#include "mc.h"
#include "sub_time.h"
#include "exceptions.h"
#include <algorithm>
#include <cmath>

using std::string;
using std::vector;
typedef __int128 big;

struct Rate { int num, den; };
static vector<Rate> const rates = {
	{25, 1}, {24, 1}, {30, 1}, {24000, 1001}, {30000, 1001}, {1000, 1}, {50, 1}, {48, 1}, {60, 1}, {60000, 1001}, {1, 1}, {2, 1}, {12, 1}, {15, 1}, {96, 1}, {100, 1}, {120, 1}, {23976, 1000}, {2997, 100},
	{25, 2}, {2500, 100}, {2997000, 100000}, {48000, 1}, {90000, 1}, {25000000, 1000000}
};

struct T { int h, m, s, f; int rate; };        // rate -1: none

static sub::Time make(const T& t)
{
	return t.rate < 0 ? sub::Time::from_hmsf(t.h, t.m, t.s, t.f) : sub::Time::from_hmsf(t.h, t.m, t.s, t.f, sub::Rational(rates[t.rate].num, rates[t.rate].den));
}

static string show(const T& t)
{
	return mc::format("%d:%d:%d:%d", t.h, t.m, t.s, t.f) + (t.rate < 0 ? string() : mc::format("@%d/%d", rates[t.rate].num, rates[t.rate].den));
}

static long secs(const T& t) { return (t.h * 60L + t.m) * 60 + t.s; }

/** exact order of a and b */
static int order(const T& a, const T& b)
{
	if (a.rate < 0) {
		return secs(a) != secs(b) ? (secs(a) < secs(b) ? -1 : 1) : (a.f < b.f ? -1 : a.f > b.f);
	}
	auto& p = rates[a.rate];
	auto& q = rates[b.rate];
	big const x = ((big) secs(a) * p.num + (big) a.f * p.den) * q.num, y = ((big) secs(b) * q.num + (big) b.f * q.den) * p.num;
	return x < y ? -1 : x > y;
}

static int max_frame(int rate)
{
	/* the last frame which starts before the end of the second */
	return (rates[rate].num - 1) / rates[rate].den;
}

/** frame numbers worth looking at */
static vector<int> frames(int rate, int limit)
{
	vector<int> f;
	int const n = max_frame(rate);
	if (n <= limit) {
		for (int i = 0; i <= n; ++i) f.push_back(i);
		return f;
	}
	for (int i = 0; i <= 24; ++i) {
		int x = (int) ((long) (n + 1) * i / 24);
		for (int d: {-1, 0, 1}) {
			if (x + d >= 0 && x + d <= n) f.push_back(x + d);
		}
	}
	std::sort(f.begin(), f.end());
	f.erase(std::unique(f.begin(), f.end()), f.end());
	return f;
}

static void construct(mc::Ctx& c)
{
	int kind = c.pick(3), h = c.pick(26), m = c.pick(60);
	if (h == 25) h = 99;
	if (h == 24) h = 48;
	if (!c.go()) return;
	vector<int> r = kind == 0 ? vector<int>{5} : kind == 1 ? vector<int>{-1} : vector<int>{0, 1, 3, 7};
	for (int s = 0; s < 60; ++s) {
		for (int rate: r) {
			for (int f: rate == -1 ? vector<int>{0, 1, 12, 24, 59} : frames(rate, kind == 2 ? 60 : 50)) {
				T const t = {h, m, s, f, rate};
				c.input(show(t));
				auto x = kind == 0 ? sub::Time::from_hms(h, m, s, f) : make(t);
				c.check(x.hours() == h && x.minutes() == m && x.seconds() == s, "fields", mc::format("%d:%d:%d", x.hours(), x.minutes(), x.seconds()));
				if (rate == -1) {
					try {
						x.frames_at(sub::Rational(25, 1));
						c.fail("no-rate-frames", "frames_at does not throw for a time which has no frame rate");
					} catch (sub::UnknownFrameRateError&) {}
					try {
						x.milliseconds();
						c.fail("no-rate-milliseconds", "milliseconds does not throw for a time which has no frame rate");
					} catch (sub::UnknownFrameRateError&) {}
					try {
						x.all_as_seconds();
						c.fail("no-rate-seconds", "all_as_seconds does not throw for a time which has no frame rate");
					} catch (sub::UnknownFrameRateError&) {}
				} else {
					int const g = x.frames_at(sub::Rational(rates[rate].num, rates[rate].den));
					c.check(g == f, "frames", mc::format("%d frames", g));
					double const a = secs(t) + double(f) * rates[rate].den / rates[rate].num;
					c.check(fabs(x.all_as_seconds() - a) <= 0.0005, "all-as-seconds", mc::format("%.9f instead of %.9f", x.all_as_seconds(), a));
					if (kind == 0) c.check(x.milliseconds() == f, "milliseconds", mc::format("%d", x.milliseconds()));
				}
				c.compared();
				c.step(3);
				c.state(mc::mix(mc::hash_bytes(&t, sizeof(t)), kind));
			}
		}
	}
}

static void convert(mc::Ctx& c)
{
	int a = c.pick(rates.size()), b = c.pick(rates.size()), s = c.pick(2);
	if (!c.go()) return;
	for (int f: frames(a, 200000)) {
		T const t = {0, 0, s * 59, f, a};
		c.input(show(t) + mc::format(" at %d/%d", rates[b].num, rates[b].den));
		int const g = make(t).frames_at(sub::Rational(rates[b].num, rates[b].den));
		/* x/y frames */
		big const x = (big) f * rates[a].den * rates[b].num, y = (big) rates[a].num * rates[b].den;
		big const d = 2 * ((big) g * y - x);
		c.check(d <= y && d >= -y, "frames-at", mc::format("gives %d", g));
		c.compared();
		c.step();
		c.state(mc::mix(mc::hash_bytes(&t, sizeof(t)), b));
		c.outcome(g);
	}
}

static void compare_two(mc::Ctx& c, const T& ta, const T& tb)
{
	auto const a = make(ta), b = make(tb);
	int const o = order(ta, tb);
	bool const lt = a < b, gt = a > b, eq = a == b, ne = a != b;
	if (lt != (o < 0) || gt != (o > 0) || eq != (o == 0) || ne != (o != 0)) {
		c.input(show(ta) + " and " + show(tb));
		c.fail("comparison", mc::format("< %d > %d == %d != %d", lt, gt, eq, ne));
	}
}

static void compare(mc::Ctx& c)
{
	static vector<T> const all = [&]() {
		vector<T> o;
		for (int r = 0; r < (int) rates.size(); ++r) {
			for (int f: frames(r, 60)) {
				for (int s: {0, 1, 59}) o.push_back({0, 0, s, f, r});
				o.push_back({0, 59, 59, f, r});
				o.push_back({23, 59, 59, f, r});
			}
		}
		return o;
	}();
	int i = c.pick(all.size());
	if (!c.go()) return;
	c.input(show(all[i]));
	for (auto& b: all) compare_two(c, all[i], b);
	c.compared(all.size());
	c.step(4 * all.size());
	c.state(i);
}

/** The longest times that there can be, and those before zero, which a file may have */
static void extremes(mc::Ctx& c)
{
	static vector<T> const all = [&]() {
		vector<T> o;
		for (int r: {-1, 0, 3, 5, 9, 23}) {
			for (int f: r < 0 ? vector<int>{0, 1, 24} : frames(r, 4)) {
				for (int h: {-596523, -300000, -1, 0, 1, 99, 100, 300000, 596523}) {
					for (int s: {0, 1, 14 * 60 + 6, 14 * 60 + 7}) o.push_back({h, s / 60, s % 60, f, r});
				}
			}
		}
		return o;
	}();
	int i = c.pick(all.size());
	if (!c.go()) return;
	c.input(show(all[i]));
	int n = 0;
	for (auto& b: all) {
		if ((all[i].rate < 0) != (b.rate < 0)) continue;
		compare_two(c, all[i], b);
		++n;
	}
	c.compared(n);
	c.step(4 * n);
	c.state(mc::mix(i, n));
}

/** More minutes and seconds than there are in an hour and in a minute */
static void carried(mc::Ctx& c)
{
	static vector<int> const hs = {0, 1, 99, 300000}, ms = {0, 1, 59, 60, 61, 119, 120, 1439, 1440, 3600, 65535, 65536, 1000000, 35000000}, ss = {0, 1, 59, 60, 61, 119, 3599, 3600, 3601, 86400, 65536, 1048576, 16777217, 1000000007, 2147483647};
	int const h = c.of(hs), m = c.of(ms), s = c.of(ss), kind = c.pick(3);
	long const total = h * 3600L + m * 60L + s;
	if (!c.go() || total > 2147483647L) return;
	c.input(mc::format("%d:%d:%d %d", h, m, s, kind));
	auto const t = kind == 0 ? sub::Time::from_hms(h, m, s, 7) : kind == 1 ? sub::Time::from_hmsf(h, m, s, 7, sub::Rational(25, 1)) : sub::Time::from_hmsf(h, m, s, 7);
	c.check(t.hours() == total / 3600 && t.minutes() == total / 60 % 60 && t.seconds() == total % 60, "carried", mc::format("comes back as %d:%d:%d", t.hours(), t.minutes(), t.seconds()));
	c.compared();
	c.step(3);
	c.state(mc::mix(total, kind));
}

static void no_rate(mc::Ctx& c)
{
	static vector<int> const fs = {0, 1, 2, 12, 24, 25, 40, 999};
	T a = {c.pick(2), c.pick(2), c.pick(2), c.of(fs), c.pick(2) ? -1 : c.pick(4)};
	if (!c.go()) return;
	for (int h = 0; h < 2; ++h) for (int m = 0; m < 2; ++m) for (int s = 0; s < 2; ++s) for (int f: fs) for (int r = -1; r < 4; ++r) {
		T const b = {h, m, s, f, r};
		if ((a.rate >= 0 && a.f > max_frame(a.rate)) || (r >= 0 && f > max_frame(r))) continue;
		c.input(show(a) + " and " + show(b));
		c.compared();
		c.step(4);
		c.state(mc::mix(mc::hash_bytes(&a, sizeof(a)), mc::hash_bytes(&b, sizeof(b))));
		if ((a.rate < 0) == (r < 0)) {
			compare_two(c, a, b);
			continue;
		}
		auto const x = make(a), y = make(b);
		for (int op = 0; op < 4; ++op) {
			try {
				bool const v = op == 0 ? x < y : op == 1 ? x > y : op == 2 ? x == y : x != y;
				/* the number of seconds may settle it */
				long const d = secs(a) - secs(b);
				c.check(d && v == (op == 0 ? d < 0 : op == 1 ? d > 0 : op == 3), "guess", mc::format("operator %d gives %d", op, v));
			} catch (sub::UnknownFrameRateError&) {
			}
		}
	}
}

static bool whole(int r) { return rates[r].num % rates[r].den == 0; }
static int per_second(int r) { return rates[r].num / rates[r].den; }

static void from_frames(mc::Ctx& c)
{
	int r = c.pick(rates.size()), block = c.pick(200);
	if (!whole(r)) return;
	if (!c.go()) return;
	int const n = per_second(r);
	for (int i = 0; i < 1000; ++i) {
		long const f = block < 100 ? block * 1000 + i : (long) (block - 99) * 864 * n + (i * 37);
		if (f > 2147483647L) break;
		c.input(mc::format("%ld frames at %d", f, n));
		auto t = sub::Time::from_frames((int) f, sub::Rational(rates[r].num, rates[r].den));
		T const e = {(int) (f / n / 3600), (int) (f / n / 60 % 60), (int) (f / n % 60), (int) (f % n), r};
		c.check(t.hours() == e.h && t.minutes() == e.m && t.seconds() == e.s && t.frames_at(sub::Rational(n, 1)) == e.f && t == make(e), "from-frames",
			mc::format("%d:%d:%d:%d", t.hours(), t.minutes(), t.seconds(), t.frames_at(sub::Rational(n, 1))));
		c.compared();
		c.step();
		c.state(mc::mix(r, f));
	}
}

/** Check that t is normalised and within half a frame (and a bit) of n/d seconds; r is the rate that it should have */
static void result(mc::Ctx& c, const sub::Time& t, int r, long double want, const char* key)
{
	int const n = per_second(r);
	int const f = t.frames_at(sub::Rational(n, 1));
	T const e = {t.hours(), t.minutes(), t.seconds(), f, r};
	c.check(f >= 0 && f < n && t.minutes() < 60 && t.seconds() < 60, "normalised", "result is " + show(e));
	c.check(t == make(e), "result-rate", "result is not a whole number of frames at its rate: " + show(e));
	long double const got = secs(e) + (long double) f / n;
	c.check(fabsl(got - want) * n <= 0.5L + 1e-4L, key, "result is " + show(e) + mc::format(" (%.9Lf) instead of %.9Lf", got, want));
	c.outcome(secs(e) * 7919 + f);
}

static void add(mc::Ctx& c)
{
	int ra = c.pick(rates.size()), rb = c.pick(rates.size()), which = c.pick(6);
	if (!whole(ra) || !whole(rb)) return;
	if (!c.go()) return;
	static int const at[6][2] = {{0, 0}, {0, 1}, {59, 59}, {3599, 1}, {43200, 3661}, {7325, 86399 - 7325}};
	int const r = per_second(ra) > per_second(rb) ? ra : rb;
	if ((at[which][0] + at[which][1] + 2) * (long) per_second(r) > 2147483647L) return;
	int const limit = c.thorough() ? 1000 : 60;
	for (int fa: frames(ra, limit)) {
		for (int fb: frames(rb, limit)) {
			int const x = at[which][0], y = at[which][1];
			T const a = {x / 3600, x / 60 % 60, x % 60, fa, ra}, b = {y / 3600, y / 60 % 60, y % 60, fb, rb};
			c.input(show(a) + " + " + show(b));
			auto t = make(a), u = make(b), v = u;
			t.add(u);
			result(c, t, r, x + y + (long double) fa / per_second(ra) + (long double) fb / per_second(rb), "sum");
			v.add(make(a));
			c.check(v == t, "sum-order", "a + b is not b + a");
			c.check(u == make(b), "argument-changed", "the argument of add is changed");
			if (y == 0 && fb == 0 && per_second(ra) >= per_second(rb)) c.check(t == make(a), "add-zero", "adding zero changes the time");
			c.compared();
			c.step(2);
			c.state(mc::mix(mc::hash_bytes(&a, sizeof(a)), mc::hash_bytes(&b, sizeof(b))));
		}
	}
}

static void scale(mc::Ctx& c)
{
	static vector<float> const factors = {1, 0, 0.5f, 2, 0.96f, 25 / 24.0f, 24 / 25.0f, 0.999f, 1.001f, 24000 / 24024.0f, 3, 0.1f, 1 / 3.0f, 10};
	int r = c.pick(rates.size()), k = c.pick(factors.size());
	if (!whole(r)) return;
	if (!c.go()) return;
	float const f = factors[k];
	for (int s: {0, 1, 2, 59, 60, 61, 599, 3599, 3600, 7318, 43200, 86399}) {
		for (int x: frames(r, 1000)) {
			T const a = {s / 3600, s / 60 % 60, s % 60, x, r};
			c.input(show(a) + mc::format(" * %.9g", f));
			auto t = make(a);
			t.scale(f);
			if (k == 0) c.check(t == make(a), "scale-one", "scaling by 1 changes the time");
			result(c, t, r, (s + (long double) x / per_second(r)) * f, "product");
			c.compared();
			c.step();
			c.state(mc::mix(mc::hash_bytes(&a, sizeof(a)), k));
		}
	}
}

/** Sequences of operations */
static void sequences(mc::Ctx& c, int max)
{
	int n = 1 + c.pick(max);
	vector<int> ops;
	for (int i = 0; i < n; ++i) ops.push_back(c.pick(8));
	if (!c.go()) return;
	/* exact value in units of 1/600 s (a multiple of each rate used), while it stays exact */
	auto t = sub::Time::from_hmsf(0, 0, 58, 0, sub::Rational(24, 1));
	long value = 58 * 600;
	int rate = 24;
	string d = "0:0:58:0@24";
	for (int op: ops) {
		auto plus = [&](int s, int f, int r) {
			t.add(sub::Time::from_hmsf(0, 0, s, f, sub::Rational(r, 1)));
			value += s * 600 + f * (600 / r);
			rate = std::max(rate, r);
			d += mc::format(" + %d:%d@%d", s, f, r);
		};
		switch (op) {
		case 0: plus(0, 1, 24); break;
		case 1: plus(0, 23, 24); break;
		case 2: plus(1, 24, 25); break;
		case 3: plus(0, 5, 10); break;
		case 4: plus(0, 0, 1); break;
		case 5: plus(3599, 0, 600); break;
		case 6: t.scale(1); d += " * 1"; break;
		case 7: t.scale(2); value *= 2; d += " * 2"; break;
		}
		c.input(d);
		/* each step rounds to the rate */
		long double const got = (t.hours() * 60L + t.minutes()) * 60 + t.seconds() + (long double) t.frames_at(sub::Rational(rate, 1)) / rate;
		c.check(fabsl(got - value / 600.0L) <= 0.5L / rate + 1e-6L, "sequence", mc::format("%.6Lf instead of %.6Lf", got, value / 600.0L));
		c.check(t.frames_at(sub::Rational(rate, 1)) < rate, "sequence-normalised", "not normalised");
		value = lrintl(got * 600);
		c.state(mc::mix(value, rate));
		c.step();
	}
	c.compared();
	c.outcome(value);
}

/** Rates */
static void rational(mc::Ctx& c)
{
	int a = c.pick(rates.size()), b = c.pick(rates.size());
	if (!c.go()) return;
	auto p = rates[a], q = rates[b];
	sub::Rational x(p.num, p.den), y(q.num, q.den);
	c.input(mc::format("%d/%d and %d/%d", p.num, p.den, q.num, q.den));
	c.check(x.integer() == (p.num % p.den == 0), "rational-integer", "wrong");
	c.check(x.integer_fraction() == p.num / p.den, "rational-integer-fraction", "wrong");
	c.check(fabs(x.fraction() - double(p.num) / p.den) < 1e-9, "rational-fraction", "wrong");
	c.check((x == y) == (p.num == q.num && p.den == q.den), "rational-equal", "wrong");
	auto m = max(x, y);
	bool const less = (long) p.num * q.den < (long) q.num * p.den, more = (long) p.num * q.den > (long) q.num * p.den;
	c.check(more ? m == x : less ? m == y : (m == x || m == y), "rational-max", "wrong");
	c.compared();
	c.step(5);
	c.state(a * 100 + b);
}

int main(int argc, char** argv)
{
	mc::Options o;
	o.property = "C10";
	return mc::main(argc, argv, o, {
		{"construct", 0, 0, construct},
		{"convert", 0, 0, convert},
		{"compare", 0, 0, compare},
		{"extremes", 0, 0, extremes},
		{"carried", 0, 0, carried},
		{"no-rate", 0, 0, no_rate},
		{"from-frames", 0, 0, from_frames},
		{"add", 0, 0, add},
		{"scale", 0, 0, scale},
		{"sequences", 0, 0, [](mc::Ctx& c) { sequences(c, c.thorough() ? 8 : 6); }},
		{"rationals", 0, 0, rational},
	}, "all hours, minutes and seconds with frames at several rates; every frame of 25 rates at 25 rates; all pairs of about 4000 times, and of the longest ones and those before zero; all pairs of times with and without rates; excess minutes and seconds; 200000 numbers of frames at each rate; sums of pairs and products with 14 factors at each rate; all sequences of up to 6 (thorough 8) operations; compared with exact rational arithmetic",
	{"frames are less than the rate", "times have fewer than 2^31 frames"});
}
