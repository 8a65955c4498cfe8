/* A cooperative scheduler for real threads: it runs one thread at a time, switches only where it is told to, and finds
 * pairs of conflicting accesses to memory which nothing puts in an order (data races).
 *
 * The code under test is compiled with -fsanitize=thread, so that each access to memory and each atomic operation calls
 * a function; those functions are ours (lib/scheduler.cc) and not those of the sanitizer.
 */
#ifndef VERIF_SCHED_H
#define VERIF_SCHED_H

#include <cstdint>

namespace sched {

static int const MAX_THREADS = 3;

/** A point at which the thread that runs could have been changed */
struct Point {
	int thread;         ///< thread which arrived there
	int enabled;        ///< mask of threads which could run next
	int next;           ///< the one which did
	char kind;          ///< what it was about to do
	bool forced;        ///< true if the thread could not go on
	uint64_t object;    ///< what it was about to do it to
};

struct Switch { int point, thread; };

/** Run threads 0 to n - 1, each of which calls body with its number, switching as s says.
 *  May be called once in a process.
 */
void run(int n, void (*body)(void*, int), void* data, Switch const * s, int ns);

Point const * points();
int number_of_points();
/** @return what was wrong, or an empty string */
char const * problem();
/** accesses to memory that were looked at */
uint64_t accesses();

}

#endif
