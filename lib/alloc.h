/* Stand-ins for malloc() and friends which count what is allocated and can make an allocation fail, and checks that nothing is left */
#ifndef VERIF_ALLOC_H
#define VERIF_ALLOC_H

#include "mc.h"
#include <cerrno>
#include <cstdlib>
#include <fcntl.h>

/* Count everything allocated, and make a chosen allocation fail.  There is only one thread. */
static long live = 0, count = 0, fail_at = -1;
extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void __libc_free(void*);
static bool failing() { return fail_at >= 0 && count++ == fail_at; }
void* malloc(size_t n)
{
	if (failing()) { errno = ENOMEM; return nullptr; }
	void* p = __libc_malloc(n);
	if (p) ++live;
	return p;
}
void* calloc(size_t a, size_t b)
{
	if (failing()) { errno = ENOMEM; return nullptr; }
	void* p = __libc_calloc(a, b);
	if (p) ++live;
	return p;
}
void* realloc(void* o, size_t n)
{
	if (failing()) { errno = ENOMEM; return nullptr; }
	if (o && !n) { __libc_free(o); --live; return nullptr; }
	void* p = __libc_realloc(o, n);
	if (p && !o) ++live;
	return p;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) ++live; return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { *p = memalign(a, n); return *p ? 0 : ENOMEM; }
void free(void* p) { if (p) --live; __libc_free(p); }
}

static int descriptors()
{
	int n = 0;
	for (int i = 0; i < 200; ++i) n += fcntl(i, F_GETFD) != -1;
	return n;
}

/** Call something which should leave nothing behind */
static void balanced(mc::Ctx& c, const std::function<void ()>& f)
{
	long before = live;
	int const fds = descriptors();
	f();
	c.check(descriptors() == fds, "descriptors", mc::format("%d descriptors are left open", descriptors() - fds));
	/* Things may be cached (but not for ever) */
	for (int i = 0; live > before; ++i) {
		c.check(i < 40, "memory", mc::format("%ld allocations are left each time", live - before));
		before = live;
		f();
		c.check(descriptors() == fds, "descriptors", mc::format("%d descriptors are left open", descriptors() - fds));
	}
}

#endif
