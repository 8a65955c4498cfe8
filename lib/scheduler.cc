/* See scheduler.h.  Nothing here is instrumented, and no templates are used so that none of ours takes the place of an instrumented one. */
#include "scheduler.h"
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <iostream>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>
#include <wchar.h>

namespace sched {

typedef uintptr_t Address;

static __thread int self = -1;
static __thread int quiet = 0;    // > 0 inside one of our functions

static int const MAX_POINTS = 1 << 18;
static Point* trail;
static int npoints;
static Switch const * switches;
static int nswitches, next_switch;
static int threads;
static char trouble[8192];
static uint64_t naccesses;
static int streak;

enum Status { READY, BLOCKED, DONE };
static struct Thread {
	Status status;
	Address waiting;
	int go;           // futex
	uint32_t clock[MAX_THREADS];
	pthread_t id;
	Address stack_low, stack_high;
} thread[MAX_THREADS];

static void die(char const * s)
{
	ssize_t r = write(2, s, strlen(s));
	r = write(2, "\n", 1);
	(void) r;
	_exit(98);
}

static void futex_wait(int* p) { while (!__atomic_load_n(p, __ATOMIC_ACQUIRE)) syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
static void futex_wake(int* p) { __atomic_store_n(p, 1, __ATOMIC_RELEASE); syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }

static int enabled()
{
	int m = 0;
	for (int i = 0; i < threads; ++i) if (thread[i].status == READY) m |= 1 << i;
	return m;
}

static void run_another(int next)
{
	int const me = self;
	thread[me].go = 0;
	futex_wake(&thread[next].go);
	if (thread[me].status != DONE) futex_wait(&thread[me].go);
}

static void finished();

/** The running thread has arrived somewhere that it could be stopped */
static void point(char kind, uint64_t object)
{
	int const me = self;
	if (npoints >= MAX_POINTS) die("too many points");
	int const can = enabled();
	int next;
	bool const forced = thread[me].status != READY;
	if (!can) {
		if (thread[me].status == DONE) {
			for (int i = 0; i < threads; ++i) if (thread[i].status == BLOCKED) {
				if (!trouble[0]) snprintf(trouble, sizeof(trouble), "deadlock: thread %d waits for ever", i);
				finished();
				return;
			}
			finished();
			return;
		}
		if (!trouble[0]) snprintf(trouble, sizeof(trouble), "deadlock: thread %d waits for ever", me);
		finished();
		/* there is nothing else to do */
		while (true) pause();
	}
	if (next_switch < nswitches && switches[next_switch].point == npoints) {
		next = switches[next_switch++].thread;
		if (!(can & (1 << next))) die("a switch to a thread which cannot run");
	} else if (!forced && (streak < 20000 || can == (1 << me))) {
		next = me;
	} else {
		/* the next one round */
		next = me;
		do next = (next + 1) % threads; while (!(can & (1 << next)));
	}
	streak = next == me ? streak + 1 : 0;
	trail[npoints++] = {me, can, next, kind, forced, object};
	if (next != me) run_another(next);
}

static int over;
static void finished() { futex_wake(&over); }

/* Order of events */

static int const OBJECTS = 1 << 16;
static struct Object { Address a; uint32_t clock[MAX_THREADS]; int owner; int depth; int state; }* objects;

static Object* object(Address a)
{
	size_t i = (a * 0x9e3779b97f4a7c15ull) >> 48;
	while (objects[i].a && objects[i].a != a) i = (i + 1) & (OBJECTS - 1);
	if (!objects[i].a) { objects[i].a = a; objects[i].owner = -1; }
	return &objects[i];
}

static void acquire(Address a)
{
	Object* o = object(a);
	for (int i = 0; i < threads; ++i) if (o->clock[i] > thread[self].clock[i]) thread[self].clock[i] = o->clock[i];
}

static void release(Address a)
{
	Object* o = object(a);
	for (int i = 0; i < threads; ++i) if (thread[self].clock[i] > o->clock[i]) o->clock[i] = thread[self].clock[i];
	++thread[self].clock[self];
}

/** Like release, but what was there before is forgotten (as it is when something else is stored) */
static void replace(Address a)
{
	memcpy(object(a)->clock, thread[self].clock, sizeof(thread[self].clock));
	++thread[self].clock[self];
}

/* Accesses to memory */

struct Cell {
	uint32_t at[2][MAX_THREADS][8];      // when each thread last read or wrote each byte
	Address pc[2][MAX_THREADS];
};
static int const GRANULES = 128;                 // in a page of shadow (1k of memory)
struct Shadow { Address page; Cell cells[GRANULES]; };
static int const SHADOWS = 1 << 17;
static Shadow** shadows;
static char* shadow_pool;
static size_t shadow_used, const_shadow_size = 12ull << 30;

static struct { Address from, to; } ignored[256];
static int nignored;

static bool ignore(Address a)
{
	for (int i = 0; i < nignored; ++i) if (a >= ignored[i].from && a < ignored[i].to) return true;
	return false;
}

static Shadow* shadow(Address a)
{
	Address const page = a / (GRANULES * 8);
	size_t i = (page * 0x9e3779b97f4a7c15ull) >> 47;
	while (shadows[i] && shadows[i]->page != page) i = (i + 1) & (SHADOWS - 1);
	if (!shadows[i]) {
		if (shadow_used + sizeof(Shadow) > const_shadow_size) die("too much memory is used");
		shadows[i] = (Shadow*) (shadow_pool + shadow_used);
		shadow_used += (sizeof(Shadow) + 63) & ~63ull;
		shadows[i]->page = page;
	}
	return shadows[i];
}

static void race(Address a, size_t size, bool writing, Address pc, int other, bool other_writing, Address other_pc)
{
	if (trouble[0]) return;
	snprintf(trouble, sizeof(trouble), "race: thread %d %s %zu bytes at %p in %p while thread %d %s in %p",
		self, writing ? "writes" : "reads", size, (void*) a, (void*) pc, other, other_writing ? "writes" : "reads", (void*) other_pc);
}

static void access(Address a, size_t size, bool writing, Address pc)
{
	if (self < 0 || quiet) return;
	Thread& me = thread[self];
	if (a >= me.stack_low && a < me.stack_high) return;
	++naccesses;
	uint32_t const now = me.clock[self];
	while (size) {
		Cell& c = shadow(a)->cells[(a / 8) % GRANULES];
		int const from = a & 7, to = size > (size_t) (8 - from) ? 8 : from + size;
		if (c.at[writing][self][from] != now || c.at[writing][self][to - 1] != now) {
			for (int i = 0; i < threads; ++i) {
				if (i == self) continue;
				for (int b = from; b < to; ++b) {
					bool const w = c.at[1][i][b] > me.clock[i], r = writing && c.at[0][i][b] > me.clock[i];
					if ((w || r) && !ignore(a)) race(a, to - from, writing, pc, i, w, c.pc[w][i]);
				}
			}
			c.pc[writing][self] = pc;
			for (int b = from; b < to; ++b) c.at[writing][self][b] = now;
		}
		a += to - from;
		size -= to - from;
	}
}

#define PC ((Address) __builtin_return_address(0))

/* Memory: each thread has its own, so that an address is never used by one thread and then another */

static char* arena[MAX_THREADS];
static size_t arena_used[MAX_THREADS];
static size_t const ARENA = 8ull << 30;
struct Header { size_t size; Header* next; };
static Header* spare[MAX_THREADS][48];

static void* allocate(size_t n, size_t align = 16)
{
	int k = 5;
	while ((1ull << k) < n + align + sizeof(Header)) ++k;
	Header* h = spare[self][k];
	if (h && align == 16) {
		spare[self][k] = h->next;
	} else {
		size_t at = (arena_used[self] + sizeof(Header) + align - 1) & ~(align - 1);
		if (at + (1ull << k) > ARENA) { errno = ENOMEM; return nullptr; }
		h = (Header*) (arena[self] + at) - 1;
		arena_used[self] = at + (1ull << k);
		h->size = (uint64_t) k << 56;
	}
	h->size = (h->size & (0xffull << 56)) | n;
	return h + 1;
}

static int whose(void const * p)
{
	for (int i = 0; i < MAX_THREADS; ++i) if (arena[i] && (char const *) p >= arena[i] && (char const *) p < arena[i] + ARENA) return i;
	return -1;
}

static size_t size_of(void* p) { return ((Header*) p - 1)->size & ~(0xffull << 56); }

Point const * points() { return trail; }
int number_of_points() { return npoints; }
char const * problem() { return trouble; }
uint64_t accesses() { return naccesses; }

static void (*the_body)(void*, int);
static void* the_data;

static void* start(void* p)
{
	int const me = (int) (intptr_t) p;
	pthread_attr_t attr;
	void* low;
	size_t size;
	pthread_getattr_np(pthread_self(), &attr);
	pthread_attr_getstack(&attr, &low, &size);
	thread[me].stack_low = (Address) low;
	thread[me].stack_high = (Address) low + size;
	pthread_attr_destroy(&attr);
	futex_wait(&thread[me].go);
	self = me;
	the_body(the_data, me);
	thread[me].status = DONE;
	point('x', 0);
	self = -1;
	return nullptr;
}

static int ignore_data(struct dl_phdr_info* i, size_t, void*)
{
	/* what the system's libraries keep for themselves */
	if (!i->dlpi_name[0]) return 0;
	for (int k = 0; k < i->dlpi_phnum; ++k) {
		auto const & h = i->dlpi_phdr[k];
		if (h.p_type == PT_LOAD && (h.p_flags & PF_W) && nignored < 200) {
			ignored[nignored].from = i->dlpi_addr + h.p_vaddr;
			ignored[nignored++].to = i->dlpi_addr + h.p_vaddr + h.p_memsz;
		}
	}
	return 0;
}

static void* reserve(size_t n)
{
	void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) die("no address space");
	return p;
}

/* A place in memory which stands for the locale and other things that belong to the process */
static char locale_of_process[8], environment[8], time_buffers[8], random_state[8], strtok_state[8], process_state[8];

void run(int n, void (*body)(void*, int), void* data, Switch const * s, int ns)
{
	threads = n;
	the_body = body;
	the_data = data;
	switches = s;
	nswitches = ns;
	trail = (Point*) reserve(MAX_POINTS * sizeof(Point));
	objects = (Object*) reserve(OBJECTS * sizeof(Object));
	shadows = (Shadow**) reserve(SHADOWS * sizeof(Shadow*));
	shadow_pool = (char*) reserve(const_shadow_size);
	dl_iterate_phdr(ignore_data, nullptr);
	std::ostream* streams[] = {&std::cout, &std::cerr, &std::clog};
	for (auto i: streams) { ignored[nignored].from = (Address) i; ignored[nignored++].to = (Address) (i + 1); }
	ignored[nignored].from = (Address) &std::cin; ignored[nignored++].to = (Address) (&std::cin + 1);
	for (int i = 0; i < n; ++i) {
		arena[i] = (char*) reserve(ARENA);
		thread[i].clock[i] = 1;
		if (pthread_create(&thread[i].id, nullptr, start, (void*) (intptr_t) i)) die("cannot make a thread");
	}
	int first = 0;
	if (ns && s[0].point == 0) { first = s[0].thread; ++next_switch; }
	trail[npoints++] = {-1, (1 << n) - 1, first, 's', true, 0};
	futex_wake(&thread[first].go);
	futex_wait(&over);
	if (!strncmp(trouble, "deadlock", 8)) return;
	for (int i = 0; i < n; ++i) pthread_join(thread[i].id, nullptr);
}

static void synchronising(char kind, Address a) { if (self >= 0 && !quiet) point(kind, a); }

static void lock(Address a, bool recursive)
{
	Object* o = object(a);
	while (o->owner >= 0 && !(o->owner == self && recursive)) {
		thread[self].status = BLOCKED;
		thread[self].waiting = a;
		point('b', a);
		o = object(a);
	}
	o->owner = self;
	++o->depth;
	acquire(a);
}

static void wake(Address a)
{
	for (int i = 0; i < threads; ++i) if (thread[i].status == BLOCKED && thread[i].waiting == a) thread[i].status = READY;
}

static void unlock(Address a)
{
	Object* o = object(a);
	if (--o->depth == 0) { o->owner = -1; wake(a); }
	release(a);
}

/** A function which one of ours stands for.  It may be wanted before our constructors are called. */
template <class F> struct Real {
	F* f;
	char const * name;
	void find() { f = (F*) dlsym(RTLD_NEXT, name); }
	operator F*() { if (!f) find(); return f; }
};
}

using namespace sched;

#define ACTIVE (self >= 0 && !quiet)
#define SYMBOL(name, type, symbol, ...) static Real<type (__VA_ARGS__)> real_##name = {nullptr, symbol}; __attribute__((constructor)) static void find_##name() { real_##name.find(); }
#define REAL(name, type, ...) SYMBOL(name, type, #name, __VA_ARGS__)

/* What the compiler calls */

extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}

#define ACCESS(n) \
	void __tsan_read##n(void* p) { access((Address) p, n, false, PC); } \
	void __tsan_write##n(void* p) { access((Address) p, n, true, PC); } \
	void __tsan_unaligned_read##n(void* p) { access((Address) p, n, false, PC); } \
	void __tsan_unaligned_write##n(void* p) { access((Address) p, n, true, PC); } \
	void __tsan_volatile_read##n(void* p) { access((Address) p, n, false, PC); } \
	void __tsan_volatile_write##n(void* p) { access((Address) p, n, true, PC); } \
	void __tsan_unaligned_volatile_read##n(void* p) { access((Address) p, n, false, PC); } \
	void __tsan_unaligned_volatile_write##n(void* p) { access((Address) p, n, true, PC); }
ACCESS(1) ACCESS(2) ACCESS(4) ACCESS(8) ACCESS(16)
void __tsan_read_range(void* p, unsigned long n) { access((Address) p, n, false, PC); }
void __tsan_write_range(void* p, unsigned long n) { access((Address) p, n, true, PC); }
void __tsan_vptr_update(void** p, void*) { access((Address) p, 8, true, PC); }
void __tsan_vptr_read(void** p) { access((Address) p, 8, false, PC); }

#define GET(o) if (ACTIVE && (o) != __ATOMIC_RELAXED && (o) != __ATOMIC_RELEASE) acquire((Address) p)
#define PUT(o) if (ACTIVE && ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_ACQ_REL || (o) == __ATOMIC_SEQ_CST)) release((Address) p)
#define SET(o) if (ACTIVE) { if ((o) == __ATOMIC_RELEASE || (o) == __ATOMIC_SEQ_CST) replace((Address) p); }
#define ATOMIC(n, T) \
	T __tsan_atomic##n##_load(const volatile T* p, int o) { synchronising('l', (Address) p); GET(o); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
	void __tsan_atomic##n##_store(volatile T* p, T v, int o) { synchronising('w', (Address) p); SET(o); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_exchange(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_add(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_sub(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_and(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_or(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_xor(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
	T __tsan_atomic##n##_fetch_nand(volatile T* p, T v, int o) { synchronising('a', (Address) p); GET(o); PUT(o); return __atomic_fetch_nand(p, v, __ATOMIC_SEQ_CST); } \
	int __tsan_atomic##n##_compare_exchange_strong(volatile T* p, T* e, T v, int o, int f) \
	{ \
		synchronising('a', (Address) p); \
		bool const r = __atomic_compare_exchange_n(p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		if (r) { GET(o); PUT(o); } else { GET(f); } \
		return r; \
	} \
	int __tsan_atomic##n##_compare_exchange_weak(volatile T* p, T* e, T v, int o, int f) { return __tsan_atomic##n##_compare_exchange_strong(p, e, v, o, f); } \
	T __tsan_atomic##n##_compare_exchange_val(volatile T* p, T e, T v, int o, int f) { __tsan_atomic##n##_compare_exchange_strong(p, &e, v, o, f); return e; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) { if (ACTIVE) { acquire(1); release(1); } }
void __tsan_atomic_signal_fence(int) {}

/* Static variables in functions.  The first byte is set when it has been made, the second while it is being made. */
int __cxa_guard_acquire(uint64_t* g)
{
	char* b = (char*) g;
	if (!ACTIVE) {
		if (__atomic_load_n(b, __ATOMIC_ACQUIRE)) return 0;
		b[1] = 1;
		return 1;
	}
	point('g', (Address) g);
	while (b[1] && !b[0]) {
		thread[self].status = BLOCKED;
		thread[self].waiting = (Address) g;
		point('b', (Address) g);
	}
	acquire((Address) g);
	if (b[0]) return 0;
	b[1] = 1;
	return 1;
}

static void guard_end(uint64_t* g, bool made)
{
	char* b = (char*) g;
	if (ACTIVE) {
		point('G', (Address) g);
		wake((Address) g);
		release((Address) g);
	}
	b[1] = 0;
	__atomic_store_n(b, made, __ATOMIC_RELEASE);
}

void __cxa_guard_release(uint64_t* g) { guard_end(g, true); }
void __cxa_guard_abort(uint64_t* g) { guard_end(g, false); }

/* Mutexes and so on */
REAL(pthread_mutex_lock, int, pthread_mutex_t*)
REAL(pthread_mutex_trylock, int, pthread_mutex_t*)
REAL(pthread_mutex_unlock, int, pthread_mutex_t*)
REAL(pthread_rwlock_rdlock, int, pthread_rwlock_t*)
REAL(pthread_rwlock_wrlock, int, pthread_rwlock_t*)
REAL(pthread_rwlock_unlock, int, pthread_rwlock_t*)
REAL(pthread_spin_lock, int, pthread_spinlock_t*)
REAL(pthread_spin_unlock, int, pthread_spinlock_t*)
REAL(pthread_once, int, pthread_once_t*, void (*)())
REAL(sched_yield, int)

static bool recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (!ACTIVE) return real_pthread_mutex_lock ? real_pthread_mutex_lock(m) : 0; point('m', (Address) m); lock((Address) m, recursive(m)); return 0; }
int pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (!ACTIVE) return real_pthread_mutex_trylock(m);
	point('m', (Address) m);
	Object* o = object((Address) m);
	if (o->owner >= 0 && !(o->owner == self && recursive(m))) return EBUSY;
	lock((Address) m, recursive(m));
	return 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m) { if (!ACTIVE) return real_pthread_mutex_unlock ? real_pthread_mutex_unlock(m) : 0; point('M', (Address) m); unlock((Address) m); return 0; }
/* readers are made to take turns, which orders more than it must */
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!ACTIVE) return real_pthread_rwlock_rdlock(m); point('m', (Address) m); lock((Address) m, true); return 0; }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!ACTIVE) return real_pthread_rwlock_wrlock(m); point('m', (Address) m); lock((Address) m, false); return 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!ACTIVE) return real_pthread_rwlock_unlock(m); point('M', (Address) m); unlock((Address) m); return 0; }
int pthread_spin_lock(pthread_spinlock_t* m) { if (!ACTIVE) return real_pthread_spin_lock(m); point('m', (Address) m); lock((Address) m, false); return 0; }
int pthread_spin_unlock(pthread_spinlock_t* m) { if (!ACTIVE) return real_pthread_spin_unlock(m); point('M', (Address) m); unlock((Address) m); return 0; }
int pthread_once(pthread_once_t* c, void (*f)())
{
	if (!ACTIVE) return real_pthread_once(c, f);
	/* it has been called */
	if (__atomic_load_n((int*) c, __ATOMIC_ACQUIRE) == 2) { acquire((Address) c); return 0; }
	point('m', (Address) c);
	lock((Address) c, false);
	int r = 0;
	try {
		r = real_pthread_once(c, f);
	} catch (...) {
		unlock((Address) c);
		throw;
	}
	unlock((Address) c);
	return r;
}
int pthread_cond_wait(pthread_cond_t*, pthread_mutex_t* m)
{
	if (!ACTIVE) die("waiting for a condition outside the scheduler");
	/* waking up for no reason is allowed */
	point('M', (Address) m); unlock((Address) m);
	sched_yield();
	lock((Address) m, false);
	return 0;
}
int pthread_cond_signal(pthread_cond_t*) { return 0; }
int pthread_cond_broadcast(pthread_cond_t*) { return 0; }
int sched_yield()
{
	if (!ACTIVE) return real_sched_yield();
	/* let others go on */
	streak = 20000;
	point('y', 0);
	return 0;
}
REAL(usleep, int, useconds_t)
REAL(nanosleep, int, const struct timespec*, struct timespec*)
REAL(clock_nanosleep, int, clockid_t, int, const struct timespec*, struct timespec*)
int usleep(useconds_t t) { if (!ACTIVE) return real_usleep(t); return sched_yield(); }
int nanosleep(const struct timespec* a, struct timespec* b) { if (!ACTIVE) return real_nanosleep(a, b); return sched_yield(); }
int clock_nanosleep(clockid_t i, int f, const struct timespec* a, struct timespec* b) { if (!ACTIVE) return real_clock_nanosleep(i, f, a, b); return sched_yield(); }

/* Memory */
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
void* malloc(size_t n) { return self >= 0 ? allocate(n) : __libc_malloc(n); }
void* calloc(size_t a, size_t b)
{
	if (self < 0) return __libc_calloc(a, b);
	void* p = allocate(a * b);
	++quiet;
	if (p) memset(p, 0, a * b);
	--quiet;
	return p;
}
void* memalign(size_t a, size_t n) { return self >= 0 ? allocate(n, a < 16 ? 16 : a) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p)
{
	if (!p) return;
	int const w = whose(p);
	if (w < 0) {
		if (self >= 0) access((Address) p, 16, true, PC);
		__libc_free(p);
		return;
	}
	if (self >= 0) access((Address) p, size_of(p), true, PC);
	if (w == self) {
		Header* h = (Header*) p - 1;
		h->next = spare[self][h->size >> 56];
		spare[self][h->size >> 56] = h;
	}
}
void* realloc(void* p, size_t n)
{
	if (self < 0 && whose(p) < 0) return __libc_realloc(p, n);
	if (!p) return malloc(n);
	if (!n) { free(p); return nullptr; }
	void* q = malloc(n);
	if (!q) return q;
	/* the size of what was made before is not known, but can be read (it is followed by something) */
	size_t const was = whose(p) < 0 ? n : size_of(p);
	++quiet;
	memcpy(q, p, was < n ? was : n);
	--quiet;
	free(p);
	return q;
}

/* Functions which access memory that they are given */
REAL(memcpy, void*, void*, const void*, size_t)
REAL(memmove, void*, void*, const void*, size_t)
REAL(memset, void*, void*, int, size_t)
REAL(strncpy, char*, char*, const char*, size_t)
REAL(strcpy, char*, char*, const char*)
REAL(strcat, char*, char*, const char*)
REAL(strlen, size_t, const char*)

#define READS(p, n) if (ACTIVE) access((Address) (p), (n), false, PC)
#define WRITES(p, n) if (ACTIVE) access((Address) (p), (n), true, PC)

/* before the constructors have been called */
__attribute__((optimize("no-tree-loop-distribute-patterns"))) static void* slow_copy(void* a, const void* b, size_t n) { char volatile * x = (char volatile *) a; for (size_t i = 0; i < n; ++i) x[i] = ((const char*) b)[i]; return a; }
void* memcpy(void* a, const void* b, size_t n) { READS(b, n); WRITES(a, n); return real_memcpy.f ? real_memcpy(a, b, n) : slow_copy(a, b, n); }
void* __memcpy_chk(void* a, const void* b, size_t n, size_t) { READS(b, n); WRITES(a, n); return real_memcpy.f ? real_memcpy(a, b, n) : slow_copy(a, b, n); }
void* memmove(void* a, const void* b, size_t n)
{
	READS(b, n); WRITES(a, n);
	if (real_memmove.f) return real_memmove(a, b, n);
	if (a <= b) return slow_copy(a, b, n);
	for (size_t i = n; i-- > 0;) ((char volatile *) a)[i] = ((const char*) b)[i];
	return a;
}
void* memset(void* a, int c, size_t n)
{
	WRITES(a, n);
	if (real_memset.f) return real_memset(a, c, n);
	for (size_t i = 0; i < n; ++i) ((char volatile *) a)[i] = c;
	return a;
}
wchar_t* wmemcpy(wchar_t* a, const wchar_t* b, size_t n) { return (wchar_t*) memcpy(a, b, n * sizeof(wchar_t)); }
wchar_t* __wmemcpy_chk(wchar_t* a, const wchar_t* b, size_t n, size_t) { return (wchar_t*) memcpy(a, b, n * sizeof(wchar_t)); }
wchar_t* wmemmove(wchar_t* a, const wchar_t* b, size_t n) { return (wchar_t*) memmove(a, b, n * sizeof(wchar_t)); }
size_t strlen(const char* a)
{
	size_t n = 0;
	if (real_strlen.f) n = real_strlen(a); else while (((char const volatile *) a)[n]) ++n;
	READS(a, n + 1);
	return n;
}
char* strncpy(char* a, const char* b, size_t n) { size_t m = strnlen(b, n); READS(b, m); WRITES(a, n); return real_strncpy(a, b, n); }
char* __strncpy_chk(char* a, const char* b, size_t n, size_t) { size_t m = strnlen(b, n); READS(b, m); WRITES(a, n); return real_strncpy(a, b, n); }
char* strcpy(char* a, const char* b) { size_t m = real_strlen(b) + 1; READS(b, m); WRITES(a, m); return real_strcpy(a, b); }
char* __strcpy_chk(char* a, const char* b, size_t) { size_t m = real_strlen(b) + 1; READS(b, m); WRITES(a, m); return real_strcpy(a, b); }
char* strcat(char* a, const char* b) { size_t l = real_strlen(a), m = real_strlen(b) + 1; READS(b, m); READS(a, l); WRITES(a + l, m); return real_strcat(a, b); }
char* __strcat_chk(char* a, const char* b, size_t) { size_t l = real_strlen(a), m = real_strlen(b) + 1; READS(b, m); READS(a, l); WRITES(a + l, m); return real_strcat(a, b); }

REAL(vsnprintf, int, char*, size_t, const char*, va_list)
static int print(char* a, size_t n, const char* f, va_list v, Address pc)
{
	++quiet;
	int const r = real_vsnprintf(a, n, f, v);
	--quiet;
	if (ACTIVE) { access((Address) locale_of_process, 1, false, pc); if (n && r >= 0) access((Address) a, (size_t) r < n ? r + 1 : n, true, pc); }
	return r;
}
int vsnprintf(char* a, size_t n, const char* f, va_list v) { return print(a, n, f, v, PC); }
int __vsnprintf_chk(char* a, size_t n, int, size_t, const char* f, va_list v) { return print(a, n, f, v, PC); }
int vsprintf(char* a, const char* f, va_list v) { return print(a, 1 << 30, f, v, PC); }
int __vsprintf_chk(char* a, int, size_t, const char* f, va_list v) { return print(a, 1 << 30, f, v, PC); }
int snprintf(char* a, size_t n, const char* f, ...) { va_list v; va_start(v, f); int r = print(a, n, f, v, PC); va_end(v); return r; }
int __snprintf_chk(char* a, size_t n, int, size_t, const char* f, ...) { va_list v; va_start(v, f); int r = print(a, n, f, v, PC); va_end(v); return r; }
int sprintf(char* a, const char* f, ...) { va_list v; va_start(v, f); int r = print(a, 1 << 30, f, v, PC); va_end(v); return r; }
int __sprintf_chk(char* a, int, size_t, const char* f, ...) { va_list v; va_start(v, f); int r = print(a, 1 << 30, f, v, PC); va_end(v); return r; }

REAL(fgets, char*, char*, int, FILE*)
REAL(fread, size_t, void*, size_t, size_t, FILE*)
char* fgets(char* a, int n, FILE* f) { WRITES(a, n); return real_fgets(a, n, f); }
char* __fgets_chk(char* a, size_t, int n, FILE* f) { WRITES(a, n); return real_fgets(a, n, f); }
size_t fread(void* a, size_t s, size_t n, FILE* f) { WRITES(a, s * n); return real_fread(a, s, n, f); }
size_t __fread_chk(void* a, size_t, size_t s, size_t n, FILE* f) { WRITES(a, s * n); return real_fread(a, s, n, f); }

/* Things that belong to the process as a whole */
#define STATE(name, type, what, writing, params, args, ...) REAL(name, type, __VA_ARGS__) type name params { if (ACTIVE) { access((Address) what, 1, writing, PC); point('p', (Address) what); } return real_##name args; }
#define PEEK(name, type, what, params, args, ...) REAL(name, type, __VA_ARGS__) type name params { if (ACTIVE) access((Address) what, 1, false, PC); return real_##name args; }
STATE(setlocale, char*, locale_of_process, l != nullptr, (int c, const char* l), (c, l), int, const char*)
STATE(setenv, int, environment, true, (const char* a, const char* b, int c), (a, b, c), const char*, const char*, int)
STATE(unsetenv, int, environment, true, (const char* a), (a), const char*)
STATE(putenv, int, environment, true, (char* a), (a), char*)
STATE(localtime, struct tm*, time_buffers, true, (const time_t* t), (t), const time_t*)
STATE(gmtime, struct tm*, time_buffers, true, (const time_t* t), (t), const time_t*)
STATE(ctime, char*, time_buffers, true, (const time_t* t), (t), const time_t*)
STATE(asctime, char*, time_buffers, true, (const struct tm* t), (t), const struct tm*)
STATE(rand, int, random_state, true, (), ())
STATE(srand, void, random_state, true, (unsigned s), (s), unsigned)
STATE(strtok, char*, strtok_state, true, (char* a, const char* b), (a, b), char*, const char*)
STATE(chdir, int, process_state, true, (const char* a), (a), const char*)
STATE(umask, mode_t, process_state, true, (mode_t m), (m), mode_t)
#undef localeconv
PEEK(localeconv, struct lconv*, locale_of_process, () noexcept, ())
PEEK(getenv, char*, environment, (const char* a), (a), const char*)
PEEK(getcwd, char*, process_state, (char* a, size_t n), (a, n), char*, size_t)

/* Files.  Threads only meet there if they use the same name. */
static uint64_t name_of(const char* p)
{
	uint64_t h = 1469598103934665603ull;
	for (; *p; ++p) h = (h ^ (unsigned char) *p) * 1099511628211ull;
	return h | 1;
}
static uint64_t names[1024];
static int opened(int f, const char* p) { if (f >= 0 && f < 1024) names[f] = name_of(p); return f; }
static uint64_t name_of_fd(int f) { return f >= 0 && f < 1024 ? names[f] : 0; }
REAL(open, int, const char*, int, ...)
REAL(open64, int, const char*, int, ...)
REAL(fopen, FILE*, const char*, const char*)
REAL(fopen64, FILE*, const char*, const char*)
REAL(rename, int, const char*, const char*)
REAL(unlink, int, const char*)
REAL(remove, int, const char*)
REAL(truncate, int, const char*, off_t)
REAL(write, ssize_t, int, const void*, size_t)
REAL(writev, ssize_t, int, const struct iovec*, int)
REAL(read, ssize_t, int, void*, size_t)
REAL(fclose, int, FILE*)
static void file(const char* p) { if (ACTIVE) point('f', name_of(p)); }
static void file_fd(int f) { if (ACTIVE && name_of_fd(f)) point('f', name_of_fd(f)); }
int open(const char* p, int f, ...) { va_list v; va_start(v, f); mode_t m = f & O_CREAT ? va_arg(v, mode_t) : 0; va_end(v); file(p); return opened(real_open(p, f, m), p); }
int open64(const char* p, int f, ...) { va_list v; va_start(v, f); mode_t m = f & O_CREAT ? va_arg(v, mode_t) : 0; va_end(v); file(p); return opened(real_open64(p, f, m), p); }
FILE* fopen(const char* p, const char* m) { file(p); FILE* f = real_fopen(p, m); if (f) opened(fileno(f), p); return f; }
FILE* fopen64(const char* p, const char* m) { file(p); FILE* f = real_fopen64(p, m); if (f) opened(fileno(f), p); return f; }
int rename(const char* a, const char* b) { file(a); file(b); return real_rename(a, b); }
int unlink(const char* a) { file(a); return real_unlink(a); }
int remove(const char* a) { file(a); return real_remove(a); }
int truncate(const char* a, off_t n) { file(a); return real_truncate(a, n); }
ssize_t write(int f, const void* p, size_t n) { file_fd(f); return real_write.f ? real_write(f, p, n) : syscall(SYS_write, f, p, n); }
ssize_t writev(int f, const struct iovec* p, int n) { file_fd(f); return real_writev(f, p, n); }
ssize_t read(int f, void* p, size_t n) { file_fd(f); WRITES(p, n); return real_read(f, p, n); }
int fclose(FILE* f) { if (f) file_fd(fileno(f)); return real_fclose(f); }

/* Parts of the standard library which are not templates */
#define NODE(p) do { if (p) WRITES(p, 32); } while (0)
SYMBOL(insert, void, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", bool, void**, void**, void**)
/* nodes are: colour, parent, left, right */
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, void** x, void** p, void** header)
{
	/* it may change the nodes on the way up and their children */
	NODE(x); NODE(header);
	if (ACTIVE) {
		for (void** i = p; i && i != header; i = (void**) i[1]) {
			NODE(i);
			NODE((void**) i[2]); NODE((void**) i[3]);
		}
	}
	real_insert(left, x, p, header);
}
SYMBOL(erase, void**, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", void**, void**)
void** _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(void** z, void** header)
{
	NODE(z); NODE(header);
	return real_erase(z, header);
}
#define STEP(name, symbol) SYMBOL(name, void**, #symbol, void**) void** symbol(void** n) { if (ACTIVE) { READS(n, 32); for (int k = 1; k < 4; ++k) if (n[k]) READS(n[k], 32); } return real_##name(n); }
STEP(inc, _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base)
STEP(incc, _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base)
STEP(dec, _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base)
STEP(decc, _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base)
SYMBOL(hook, void, "_ZNSt8__detail15_List_node_base7_M_hookEPS0_", void**, void**)
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(void** n, void** at) { WRITES(n, 16); WRITES(at, 16); if (ACTIVE) WRITES(at[1], 16); real_hook(n, at); }
SYMBOL(unhook, void, "_ZNSt8__detail15_List_node_base9_M_unhookEv", void**)
void _ZNSt8__detail15_List_node_base9_M_unhookEv(void** n) { WRITES(n, 16); if (ACTIVE) { WRITES(n[0], 16); WRITES(n[1], 16); } real_unhook(n); }
#define GETLINE _ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_
SYMBOL(getline, void*, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", void*, void*, char)
void* GETLINE(void* i, void* s, char c) { WRITES(s, 32); return real_getline(i, s, c); }
SYMBOL(global, void*, "_ZNSt6locale6globalERKS_", void*, const void*)
/* returns a locale in memory given by the first argument */
void* _ZNSt6locale6globalERKS_(void* r, const void* l) { if (ACTIVE) { access((Address) locale_of_process, 1, true, PC); point('p', (Address) locale_of_process); } return real_global(r, l); }
SYMBOL(locale, void, "_ZNSt6localeC1Ev", void*)
void _ZNSt6localeC1Ev(void* l) { if (ACTIVE) access((Address) locale_of_process, 1, false, PC); real_locale(l); }
SYMBOL(ios, void, "_ZNSt8ios_base7_M_initEv", void*)
void _ZNSt8ios_base7_M_initEv(void* l) { if (ACTIVE) access((Address) locale_of_process, 1, false, PC); real_ios(l); }

REAL(__isoc23_strtol, long, const char*, char**, int)
REAL(__isoc23_strtoll, long long, const char*, char**, int)
REAL(strtod, double, const char*, char**)
REAL(strtof, float, const char*, char**)
long __isoc23_strtol(const char* p, char** e, int b) { if (ACTIVE) { access((Address) p, real_strlen(p) + 1, false, PC); access((Address) locale_of_process, 1, false, PC); if (e) access((Address) e, 8, true, PC); } return real___isoc23_strtol(p, e, b); }
long long __isoc23_strtoll(const char* p, char** e, int b) { if (ACTIVE) { access((Address) p, real_strlen(p) + 1, false, PC); access((Address) locale_of_process, 1, false, PC); if (e) access((Address) e, 8, true, PC); } return real___isoc23_strtoll(p, e, b); }
double strtod(const char* p, char** e) { if (ACTIVE) { access((Address) p, real_strlen(p) + 1, false, PC); access((Address) locale_of_process, 1, false, PC); if (e) access((Address) e, 8, true, PC); } return real_strtod(p, e); }
float strtof(const char* p, char** e) { if (ACTIVE) { access((Address) p, real_strlen(p) + 1, false, PC); access((Address) locale_of_process, 1, false, PC); if (e) access((Address) e, 8, true, PC); } return real_strtof(p, e); }
}
