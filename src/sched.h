// Controlled scheduler for the real, unmodified threaded code.
//
// The library is compiled with -fsanitize=thread, but linked with this runtime instead of TSan's: every
// memory access and atomic operation calls into it, and pthread_create, pthread_join, the mutexes, condition
// variables, once flags and static initialisation guards are interposed. One thread runs at a time; before
// every atomic or synchronisation operation the scheduler asks mc::Ctx::choose() which thread goes on, so the
// engine enumerates the interleavings. A vector-clock detector reports conflicting accesses that no
// synchronisation orders, on each schedule explored.
#pragma once
#include "mc.h"
#include <functional>
#include <string>

namespace sched
{

struct Options
{
	unsigned preemptions = ~0U;    // forced switches allowed; ~0U: every interleaving
	bool cacheStates = true;       // cut schedules that reach an explored happens-before state
	bool createMayFail = false;    // explore thread creation failing
	// For runs too long to enumerate: 0: threads run until they wait; n > 0: the next thread goes on at every
	// nth operation; -2: started threads run before those that started them. Accesses aren't looked at.
	int policy = -1;
};

struct Result
{
	std::string error;             // race, or wrong use of a primitive
	bool cut = false;              // joined an explored state, the rest ran in the default order
	unsigned threads = 0;          // threads created
	unsigned points = 0;           // schedule points
	unsigned failedCreates = 0;
	unsigned unjoined = 0;         // threads still running when fn returned
};

// Forgets the explored states; call at the start of each case.
void newCase();
// Runs fn as thread 0 under the scheduler.
Result run(mc::Ctx& ctx, const Options& options, const std::function<void()>& fn);

} // namespace sched
