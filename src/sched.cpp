// See sched.h. This file is compiled without instrumentation.
#include "sched.h"
#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

namespace
{

const int maxThreads = 32;
const unsigned maxPoints = 20000;

enum Op { OpNone, OpStart, OpAtomic, OpCreate, OpJoin, OpLock, OpUnlock, OpCondWait, OpSignal, OpOnce, OpGuard,
	OpExit };

struct Clock { unsigned v[maxThreads]; };

struct Thread
{
	int state;                     // 0: none, 1: live, 2: exited
	Op op;
	void* obj;                     // what the pending operation needs
	bool joined;
	bool yielded;
	int go;                        // futex
	Clock clock;
	std::uint64_t hash;
	pthread_t handle;
	void* (*start)(void*);
	void* arg;
	char* stackLow;
	char* stackHigh;
};

// One per synchronisation address.
struct Sync
{
	void* addr;
	Clock clock;
	std::uint64_t hash;            // of the operations that changed it
	std::uint64_t reads;           // of the loads since
	int owner;                     // mutex: holder + 1
	int count;                     // mutex: recursion
	int waiters;                   // condition variable: threads to wake
};

struct Cell
{
	std::uintptr_t addr;
	unsigned gen;
	unsigned wClk;
	unsigned char wTid;
	unsigned char wKind;           // 0 write, 1 free
	unsigned short r[maxThreads];
};

const unsigned cellCount = 1 << 19, syncCount = 1 << 10, seenCount = 1 << 22;
Cell* cells;
unsigned* usedCells;
unsigned cellGen = 1, cellsUsed;
Sync syncs[syncCount];
struct Seen { std::uint64_t key; unsigned gen; int budget; };
Seen* seenStates;
unsigned seenGen = 1, seenUsed;

bool g_active;
Thread g_threads[maxThreads];
int g_threadCount, g_live;
sched::Options g_options;
sched::Result* g_result;
mc::Ctx* g_ctx;
unsigned g_preemptions, g_points, g_sameRuns;
int g_current;
bool g_free; // no further choices in this execution
int g_done;

__thread int tl_tid = -1;
__thread int tl_in;

struct In { In() { ++tl_in; } ~In() { --tl_in; } };

bool managed() { return g_active && tl_tid >= 0 && !tl_in; }

void futexWait(int* f)
{
	while (__atomic_load_n(f, __ATOMIC_ACQUIRE) == 0)
		syscall(SYS_futex, f, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
	__atomic_store_n(f, 0, __ATOMIC_RELEASE);
}

void futexWake(int* f)
{
	__atomic_store_n(f, 1, __ATOMIC_RELEASE);
	syscall(SYS_futex, f, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

void error(const char* format, ...)
{
	if (!g_result->error.empty())
		return;
	char buffer[600];
	va_list args;
	va_start(args, format);
	vsnprintf(buffer, sizeof(buffer), format, args);
	va_end(args);
	g_result->error = buffer;
	g_free = true;
}

std::string where(void* pc)
{
	Dl_info info;
	if (!dladdr(pc, &info) || !info.dli_sname)
		return "?";
	int status;
	char* name = abi::__cxa_demangle(info.dli_sname, nullptr, nullptr, &status);
	std::string s = name ? name : info.dli_sname;
	free(name);
	return s.substr(0, 120);
}

Sync& syncOf(void* addr)
{
	unsigned i = unsigned((reinterpret_cast<std::uintptr_t>(addr)*0x9e3779b97f4a7c15ULL) >> 54) % syncCount;
	for (unsigned n = 0; n < syncCount; ++n, i = (i + 1) % syncCount)
	{
		if (syncs[i].addr == addr)
			return syncs[i];
		if (!syncs[i].addr)
		{
			syncs[i].addr = addr;
			return syncs[i];
		}
	}
	fprintf(stderr, "scheduler: too many synchronisation objects\n");
	abort();
}

void join(Clock& a, const Clock& b)
{
	for (int i = 0; i < maxThreads; ++i)
		if (b.v[i] > a.v[i])
			a.v[i] = b.v[i];
}

bool enabled(int t)
{
	const Thread& th = g_threads[t];
	if (th.state != 1)
		return false;
	switch (th.op)
	{
		case OpJoin:
			return static_cast<Thread*>(th.obj)->state == 2;
		case OpLock:
		{
			const Sync& s = syncOf(th.obj);
			return s.owner == 0 || s.owner == t + 1;
		}
		case OpCondWait:
			return th.obj == nullptr;
		case OpOnce:
		case OpGuard:
		{
			const Sync& s = syncOf(th.obj);
			return s.owner == 0;
		}
		default:
			return true;
	}
}

bool explored(int budget)
{
	std::uint64_t h = 1;
	for (int i = 0; i < g_threadCount; ++i)
		h = mc::mix(mc::mix(h, g_threads[i].hash), std::uint64_t(g_threads[i].op)*3 + g_threads[i].state);
	if (g_options.preemptions != ~0U)
		h = mc::mix(h, g_current);
	g_ctx->state(h);
	if (!g_options.cacheStates || g_ctx->verbose())
		return false;
	unsigned i = unsigned(h >> 40) % seenCount;
	while (seenStates[i].gen == seenGen && seenStates[i].key != h)
		i = (i + 1) % seenCount;
	if (seenStates[i].gen == seenGen)
	{
		if (seenStates[i].budget >= budget)
			return true;
		seenStates[i].budget = budget;
		return false;
	}
	if (++seenUsed > seenCount/2)
	{
		fprintf(stderr, "scheduler: state table is full\n");
		abort();
	}
	seenStates[i] = Seen{h, seenGen, budget};
	return false;
}

// The calling thread has announced its operation: picks who goes on and waits for its own turn.
void pick(int self)
{
	int candidates[maxThreads];
	int n = 0;
	if (self >= 0 && enabled(self) && !g_threads[self].yielded)
		candidates[n++] = self;
	bool canStay = n == 1;
	for (int i = 0; i < g_threadCount; ++i)
		if (i != self && enabled(i))
			candidates[n++] = i;
	if (n == 0 && self >= 0 && enabled(self))
		candidates[n++] = self;
	if (self >= 0)
		g_threads[self].yielded = false;
	if (n == 0)
	{
		fprintf(stderr, "deadlock:");
		static const char* names[] = {"-", "start", "atomic", "create", "join", "lock", "unlock",
			"condition variable wait", "signal", "once", "static initialisation", "exit"};
		for (int i = 0; i < g_threadCount; ++i)
			if (g_threads[i].state == 1)
				fprintf(stderr, " thread %d waits in %s;", i, names[g_threads[i].op]);
		fprintf(stderr, "\n");
		abort();
	}
	if (++g_points > (g_options.policy == -1 ? maxPoints : 100*maxPoints))
	{
		fprintf(stderr, "no end after %u schedule points: livelock\n", g_points);
		abort();
	}
	int next = candidates[0];
	if (g_options.policy != -1)
	{
		if (g_options.policy == -2)
			next = *std::max_element(candidates, candidates + n);
		else if (n > 1 && g_options.policy > 0 && g_points % unsigned(g_options.policy) == 0)
		{
			// The next one in order.
			next = -1;
			for (int i = 1; i <= g_threadCount && next < 0; ++i)
				if (std::find(candidates, candidates + n, (self + i) % g_threadCount) != candidates + n)
					next = (self + i) % g_threadCount;
		}
	}
	else if (n > 1 && !g_free)
	{
		unsigned left = g_options.preemptions == ~0U ? 1000000 : g_options.preemptions - g_preemptions;
		if (canStay && left == 0)
			;
		else if (!g_ctx->m_choices.empty() && g_ctx->m_pos < g_ctx->m_choices.size())
		{
			// Still following a prefix.
			explored(int(left));
			next = candidates[g_ctx->choose(n)];
		}
		else if (explored(int(left)))
		{
			g_free = true;
			g_result->cut = true;
		}
		else
			next = candidates[g_ctx->choose(n)];
		if (canStay && next != self)
			++g_preemptions;
	}
	// A thread that spins has to let others on.
	if (next == self && n > 1 && ++g_sameRuns > 400)
	{
		next = candidates[1];
		g_sameRuns = 0;
	}
	else if (next != self)
		g_sameRuns = 0;
	g_current = next;
	if (next != self)
	{
		futexWake(&g_threads[next].go);
		if (self >= 0)
			futexWait(&g_threads[self].go);
	}
}

// Schedule point before an operation; on return this thread may perform it.
void point(Op op, void* obj)
{
	Thread& th = g_threads[tl_tid];
	th.op = op;
	th.obj = obj;
	pick(tl_tid);
	++th.clock.v[tl_tid];
	if (g_ctx->verbose())
	{
		static const char* names[] = {"-", "starts", "atomic", "creates a thread", "joins", "locks", "unlocks",
			"waits on a condition variable", "signals", "once", "static initialisation", "exits"};
		g_ctx->note("  thread %d: %s", tl_tid, names[op]);
	}
}

void touch(Sync& s, Thread& th, unsigned op)
{
	s.hash = mc::mix(mc::mix(mc::mix(s.hash, s.reads), th.hash), op + 100);
	s.reads = 0;
	th.hash = mc::mix(s.hash, op);
}

Cell* cellOf(std::uintptr_t a, bool create = true)
{
	unsigned i = unsigned((a*0x9e3779b97f4a7c15ULL) >> 45) % cellCount;
	while (cells[i].gen == cellGen && cells[i].addr != a)
		i = (i + 1) % cellCount;
	if (cells[i].gen != cellGen)
	{
		if (!create)
			return nullptr;
		if (++cellsUsed > cellCount/4*3)
		{
			fprintf(stderr, "scheduler: shadow memory is full\n");
			abort();
		}
		usedCells[cellsUsed - 1] = i;
		cells[i] = Cell();
		cells[i].gen = cellGen;
		cells[i].addr = a;
	}
	return cells + i;
}

void access(void* p, std::size_t size, bool write, bool isFree, void* pc)
{
	if (!managed() || g_live < 2 || g_options.policy != -1)
		return;
	In in;
	int t = tl_tid;
	Thread& th = g_threads[t];
	if (p >= th.stackLow && p < th.stackHigh && !write)
	{
		// Reads of the own stack matter only if others write there; record them all the same.
	}
	std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
	for (std::size_t i = 0; i < size; ++i)
	{
		// Of large blocks, many of them other libraries', later accesses to what nobody touched so far aren't
		// looked for.
		Cell* cell = cellOf(a + i, !isFree || i < 4096);
		if (!cell)
			continue;
		Cell& c = *cell;
		if (c.wClk && c.wTid != t && c.wClk > th.clock.v[c.wTid])
		{
			error("data race: thread %d %s %zu bytes in %s, and thread %d %s the byte at offset %zu without "
				"synchronisation", t, isFree ? "frees" : write ? "writes" : "reads", size, where(pc).c_str(),
				c.wTid, c.wKind ? "freed" : "wrote", i);
			return;
		}
		if (write)
		{
			for (int o = 0; o < g_threadCount; ++o)
				if (o != t && c.r[o] && c.r[o] > th.clock.v[o])
				{
					error("data race: thread %d %s %zu bytes in %s, and thread %d read the byte at offset %zu "
						"without synchronisation", t, isFree ? "frees" : "writes", size, where(pc).c_str(), o, i);
					return;
				}
			c.wClk = th.clock.v[t];
			c.wTid = static_cast<unsigned char>(t);
			c.wKind = isFree;
		}
		else
			c.r[t] = static_cast<unsigned short>(th.clock.v[t]);
	}
}

// Memory handed out anew has no history.
void forget(void* p, std::size_t size)
{
	if (!p || !g_active || tl_tid < 0 || tl_in || g_live < 2)
		return;
	In in;
	std::uintptr_t a = reinterpret_cast<std::uintptr_t>(p);
	for (std::size_t i = 0; i < size; ++i)
	{
		unsigned k = unsigned(((a + i)*0x9e3779b97f4a7c15ULL) >> 45) % cellCount;
		while (cells[k].gen == cellGen && cells[k].addr != a + i)
			k = (k + 1) % cellCount;
		if (cells[k].gen == cellGen)
		{
			cells[k].wClk = 0;
			std::memset(cells[k].r, 0, sizeof(cells[k].r));
		}
	}
}

void forgetRange(char* low, char* high)
{
	for (unsigned k = 0; k < cellsUsed; ++k)
	{
		unsigned i = usedCells[k];
		if (cells[i].addr >= reinterpret_cast<std::uintptr_t>(low) &&
			cells[i].addr < reinterpret_cast<std::uintptr_t>(high))
		{
			cells[i].wClk = 0;
			std::memset(cells[i].r, 0, sizeof(cells[i].r));
		}
	}
}

typedef int (*CreateFn)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
typedef int (*JoinFn)(pthread_t, void**);
template <typename F> F real(const char* name)
{
	return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}

void finishThread(int t)
{
	Thread& th = g_threads[t];
	++tl_in;
	th.op = OpExit;
	pick(t);
	++th.clock.v[t];
	th.hash = mc::mix(th.hash, OpExit);
	th.state = 2;
	--g_live;
	tl_tid = -1;
	--tl_in;
	// Hand over for good.
	pick(-1);
}

void* threadMain(void* p)
{
	Thread& th = *static_cast<Thread*>(p);
	int t = int(&th - g_threads);
	++tl_in;
	futexWait(&th.go);
	pthread_attr_t attr;
	if (pthread_getattr_np(pthread_self(), &attr) == 0)
	{
		void* low;
		std::size_t size;
		pthread_attr_getstack(&attr, &low, &size);
		pthread_attr_destroy(&attr);
		th.stackLow = static_cast<char*>(low);
		th.stackHigh = th.stackLow + size;
		forgetRange(th.stackLow, th.stackHigh);
	}
	++th.clock.v[t];
	tl_tid = t;
	--tl_in;
	void* r = th.start(th.arg);
	finishThread(t);
	return r;
}

void atomicPoint(void* addr, int order, bool isLoad, bool isStore)
{
	In in;
	point(OpAtomic, addr);
	Thread& th = g_threads[tl_tid];
	Sync& s = syncOf(addr);
	// memory_order: 0 relaxed, 1 consume, 2 acquire, 3 release, 4 acq_rel, 5 seq_cst
	if (isLoad && (order == 1 || order == 2 || order >= 4))
		join(th.clock, s.clock);
	if (isStore)
	{
		if (order >= 3)
		{
			if (isLoad)
				join(s.clock, th.clock);
			else
				s.clock = th.clock;
		}
		else if (!isLoad)
			s.clock = Clock();
		++th.clock.v[tl_tid];
	}
	if (isStore)
		touch(s, th, OpAtomic);
	else
	{
		// Loads commute with each other.
		th.hash = mc::mix(mc::mix(th.hash, s.hash), 99);
		s.reads += mc::mix(th.hash, 98);
	}
}

} // namespace

namespace sched
{

void newCase()
{
	++seenGen;
	seenUsed = 0;
}

Result run(mc::Ctx& ctx, const Options& options, const std::function<void()>& fn)
{
	Result result;
	if (!cells)
	{
		cells = static_cast<Cell*>(std::calloc(cellCount, sizeof(Cell)));
		usedCells = static_cast<unsigned*>(std::calloc(cellCount, sizeof(unsigned)));
		seenStates = static_cast<Seen*>(std::calloc(seenCount, sizeof(Seen)));
	}
	++cellGen;
	cellsUsed = 0;
	std::memset(syncs, 0, sizeof(syncs));
	for (Thread& t : g_threads)
		t = Thread();
	g_options = options;
	g_result = &result;
	g_ctx = &ctx;
	g_threadCount = 1;
	g_live = 1;
	g_preemptions = g_points = g_sameRuns = 0;
	g_free = false;
	g_current = 0;
	g_threads[0].state = 1;
	g_threads[0].clock.v[0] = 1;
	g_threads[0].hash = 7;
	tl_tid = 0;
	g_active = true;
	fn();
	++tl_in;
	// Let threads nobody waited for finish.
	for (int i = 1; i < g_threadCount; ++i)
	{
		if (!g_threads[i].joined)
		{
			++result.unjoined;
			while (g_threads[i].state != 2)
			{
				g_threads[0].op = OpJoin;
				g_threads[0].obj = g_threads + i;
				g_free = true;
				pick(0);
			}
		}
	}
	g_active = false;
	tl_tid = -1;
	--tl_in;
	result.threads = g_threadCount - 1;
	result.points = g_points;
	ctx.step(g_points);
	return result;
}

} // namespace sched

extern "C"
{

// ---- threads ----

int pthread_create(pthread_t* handle, const pthread_attr_t* attr, void* (*start)(void*), void* arg)
{
	static CreateFn create = real<CreateFn>("pthread_create");
	if (!managed())
		return create(handle, attr, start, arg);
	In in;
	point(OpCreate, nullptr);
	Thread& self = g_threads[tl_tid];
	if (g_options.createMayFail && !g_free && g_ctx->choose(2) == 1)
	{
		++g_result->failedCreates;
		self.hash = mc::mix(self.hash, 77);
		return EAGAIN;
	}
	if (g_threadCount >= maxThreads)
	{
		fprintf(stderr, "scheduler: too many threads\n");
		abort();
	}
	if (g_live == 1)
	{
		// Everything so far is ordered before whatever the new thread does.
		++cellGen;
		cellsUsed = 0;
	}
	Thread& th = g_threads[g_threadCount];
	th.state = 1;
	th.op = OpStart;
	th.start = start;
	th.arg = arg;
	th.clock = self.clock;
	th.clock.v[g_threadCount] = 1;
	th.hash = mc::mix(self.hash, 1000 + g_threadCount);
	self.hash = mc::mix(self.hash, OpCreate);
	++self.clock.v[tl_tid];
	int r = create(&th.handle, attr, threadMain, &th);
	if (r != 0)
	{
		th = Thread();
		return r;
	}
	++g_threadCount;
	++g_live;
	*handle = th.handle;
	return 0;
}

int pthread_join(pthread_t handle, void** out)
{
	static JoinFn join_ = real<JoinFn>("pthread_join");
	if (!managed())
		return join_(handle, out);
	In in;
	for (int i = 1; i < g_threadCount; ++i)
	{
		if (g_threads[i].handle == handle && !g_threads[i].joined)
		{
			point(OpJoin, g_threads + i);
			Thread& self = g_threads[tl_tid];
			join(self.clock, g_threads[i].clock);
			self.hash = mc::mix(self.hash, g_threads[i].hash);
			g_threads[i].joined = true;
			break;
		}
	}
	return join_(handle, out);
}

int pthread_detach(pthread_t handle)
{
	static int (*detach)(pthread_t) = real<int (*)(pthread_t)>("pthread_detach");
	return detach(handle);
}

int sched_yield(void)
{
	if (managed())
	{
		In in;
		Thread& th = g_threads[tl_tid];
		th.yielded = true;
		point(OpStart, nullptr);
		th.hash = mc::mix(th.hash, 5);
		return 0;
	}
	return int(syscall(SYS_sched_yield));
}

// ---- mutexes ----

int pthread_mutex_lock(pthread_mutex_t* m)
{
	static int (*f)(pthread_mutex_t*) = real<int (*)(pthread_mutex_t*)>("pthread_mutex_lock");
	if (!managed())
		return f(m);
	In in;
	Sync& s = syncOf(m);
	if (s.owner == tl_tid + 1)
	{
		if ((m->__data.__kind & 3) != PTHREAD_MUTEX_RECURSIVE_NP)
		{
			fprintf(stderr, "deadlock: thread %d locks a mutex it holds\n", tl_tid);
			abort();
		}
		++s.count;
		return 0;
	}
	point(OpLock, m);
	s.owner = tl_tid + 1;
	s.count = 1;
	join(g_threads[tl_tid].clock, s.clock);
	touch(s, g_threads[tl_tid], OpLock);
	return 0;
}

int pthread_mutex_trylock(pthread_mutex_t* m)
{
	static int (*f)(pthread_mutex_t*) = real<int (*)(pthread_mutex_t*)>("pthread_mutex_trylock");
	if (!managed())
		return f(m);
	In in;
	point(OpAtomic, m);
	Sync& s = syncOf(m);
	Thread& th = g_threads[tl_tid];
	touch(s, th, OpLock);
	if (s.owner != 0 && s.owner != tl_tid + 1)
		return EBUSY;
	s.owner = tl_tid + 1;
	++s.count;
	join(th.clock, s.clock);
	return 0;
}

int pthread_mutex_unlock(pthread_mutex_t* m)
{
	static int (*f)(pthread_mutex_t*) = real<int (*)(pthread_mutex_t*)>("pthread_mutex_unlock");
	if (!managed())
		return f(m);
	In in;
	Sync& s = syncOf(m);
	if (s.owner != tl_tid + 1)
	{
		error("thread %d unlocks a mutex it doesn't hold", tl_tid);
		return EPERM;
	}
	if (--s.count > 0)
		return 0;
	point(OpUnlock, m);
	s.owner = 0;
	s.clock = g_threads[tl_tid].clock;
	++g_threads[tl_tid].clock.v[tl_tid];
	touch(s, g_threads[tl_tid], OpUnlock);
	return 0;
}

// ---- condition variables ----

static int condWait(pthread_cond_t* c, pthread_mutex_t* m, bool timed)
{
	In in;
	int t = tl_tid;
	Thread& th = g_threads[t];
	Sync& s = syncOf(m);
	point(OpUnlock, m);
	int count = s.count;
	s.owner = 0;
	s.clock = th.clock;
	++th.clock.v[t];
	touch(s, th, OpUnlock);
	Sync& cs = syncOf(c);
	touch(cs, th, OpCondWait);
	(void)timed;
	point(OpCondWait, timed ? nullptr : c);
	join(th.clock, cs.clock);
	touch(cs, th, OpCondWait);
	point(OpLock, m);
	s.owner = t + 1;
	s.count = count;
	join(th.clock, s.clock);
	touch(s, th, OpLock);
	return timed ? ETIMEDOUT : 0;
}

int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	static int (*f)(pthread_cond_t*, pthread_mutex_t*) =
		real<int (*)(pthread_cond_t*, pthread_mutex_t*)>("pthread_cond_wait");
	return managed() ? condWait(c, m, false) : f(c, m);
}

int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* time)
{
	static int (*f)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*) =
		real<int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*)>("pthread_cond_timedwait");
	return managed() ? condWait(c, m, true) : f(c, m, time);
}

int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t clock, const struct timespec* time)
{
	static int (*f)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*) =
		real<int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*)>(
			"pthread_cond_clockwait");
	return managed() ? condWait(c, m, true) : f(c, m, clock, time);
}

static int condSignal(pthread_cond_t* c, bool all)
{
	In in;
	point(OpSignal, c);
	Thread& th = g_threads[tl_tid];
	Sync& s = syncOf(c);
	join(s.clock, th.clock);
	++th.clock.v[tl_tid];
	touch(s, th, OpSignal);
	int waiting[maxThreads], n = 0;
	for (int i = 0; i < g_threadCount; ++i)
		if (g_threads[i].state == 1 && g_threads[i].op == OpCondWait && g_threads[i].obj == c)
			waiting[n++] = i;
	if (all)
	{
		for (int i = 0; i < n; ++i)
			g_threads[waiting[i]].obj = nullptr;
	}
	else if (n > 0)
	{
		int k = n > 1 && !g_free ? int(g_ctx->choose(unsigned(n))) : 0;
		g_threads[waiting[k]].obj = nullptr;
		th.hash = mc::mix(th.hash, unsigned(k));
	}
	return 0;
}

int pthread_cond_signal(pthread_cond_t* c)
{
	static int (*f)(pthread_cond_t*) = real<int (*)(pthread_cond_t*)>("pthread_cond_signal");
	return managed() ? condSignal(c, false) : f(c);
}

int pthread_cond_broadcast(pthread_cond_t* c)
{
	static int (*f)(pthread_cond_t*) = real<int (*)(pthread_cond_t*)>("pthread_cond_broadcast");
	return managed() ? condSignal(c, true) : f(c);
}

// ---- once flags and static initialisation ----

int pthread_once(pthread_once_t* once, void (*fn)(void))
{
	static int (*f)(pthread_once_t*, void (*)(void)) =
		real<int (*)(pthread_once_t*, void (*)(void))>("pthread_once");
	if (!managed())
		return f(once, fn);
	{
		In in;
		point(OpOnce, once);
		Sync& s = syncOf(once);
		Thread& th = g_threads[tl_tid];
		join(th.clock, s.clock);
		touch(s, th, OpOnce);
		if (__atomic_load_n(once, __ATOMIC_ACQUIRE) == 2)
			return 0;
		s.owner = tl_tid + 1;
	}
	fn();
	In in;
	Sync& s = syncOf(once);
	s.owner = 0;
	s.clock = g_threads[tl_tid].clock;
	++g_threads[tl_tid].clock.v[tl_tid];
	__atomic_store_n(once, 2, __ATOMIC_RELEASE);
	touch(s, g_threads[tl_tid], OpOnce);
	return 0;
}

int __cxa_guard_acquire(__cxxabiv1::__guard* g)
{
	char* b = reinterpret_cast<char*>(g);
	if (!managed())
		return __atomic_load_n(b, __ATOMIC_ACQUIRE) ? 0 : 1;
	In in;
	point(OpGuard, g);
	Sync& s = syncOf(g);
	Thread& th = g_threads[tl_tid];
	join(th.clock, s.clock);
	touch(s, th, OpGuard);
	if (*b)
		return 0;
	s.owner = tl_tid + 1;
	return 1;
}

void __cxa_guard_release(__cxxabiv1::__guard* g)
{
	char* b = reinterpret_cast<char*>(g);
	if (managed())
	{
		In in;
		Sync& s = syncOf(g);
		s.owner = 0;
		s.clock = g_threads[tl_tid].clock;
		++g_threads[tl_tid].clock.v[tl_tid];
		touch(s, g_threads[tl_tid], OpGuard);
	}
	__atomic_store_n(b, 1, __ATOMIC_RELEASE);
}

void __cxa_guard_abort(__cxxabiv1::__guard* g)
{
	if (managed())
	{
		In in;
		syncOf(g).owner = 0;
	}
}

// ---- memory ----

void* __libc_malloc(std::size_t);
void __libc_free(void*);
void* __libc_calloc(std::size_t, std::size_t);
void* __libc_realloc(void*, std::size_t);
void* __libc_memalign(std::size_t, std::size_t);

// Nothing here needs as much as a gigabyte at once; like on a small machine, there isn't as much.
static const std::size_t largest = std::size_t(1) << 30;

void* malloc(std::size_t size)
{
	if (size > largest)
	{
		errno = ENOMEM;
		return nullptr;
	}
	void* p = __libc_malloc(size);
	forget(p, p ? malloc_usable_size(p) : 0);
	return p;
}

void free(void* p)
{
	if (p && g_active)
		access(p, malloc_usable_size(p), true, true, __builtin_return_address(0));
	__libc_free(p);
}

void* calloc(std::size_t n, std::size_t size)
{
	void* p = __libc_calloc(n, size);
	forget(p, p ? malloc_usable_size(p) : 0);
	return p;
}

void* realloc(void* p, std::size_t size)
{
	if (p && g_active)
		access(p, malloc_usable_size(p), true, true, __builtin_return_address(0));
	void* r = __libc_realloc(p, size);
	forget(r, r ? malloc_usable_size(r) : 0);
	return r;
}

void* memalign(std::size_t align, std::size_t size)
{
	void* p = __libc_memalign(align, size);
	forget(p, p ? malloc_usable_size(p) : 0);
	return p;
}

void* aligned_alloc(std::size_t align, std::size_t size)
{
	return memalign(align, size);
}

int posix_memalign(void** out, std::size_t align, std::size_t size)
{
	void* p = memalign(align, size);
	if (!p)
		return ENOMEM;
	*out = p;
	return 0;
}

// ---- instrumentation ----

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}

#define ACCESS(n) \
	void __tsan_read##n(void* p) { access(p, n, false, false, __builtin_return_address(0)); } \
	void __tsan_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); } \
	void __tsan_unaligned_read##n(void* p) { access(p, n, false, false, __builtin_return_address(0)); } \
	void __tsan_unaligned_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); } \
	void __tsan_read_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); } \
	void __tsan_unaligned_read_write##n(void* p) { access(p, n, true, false, __builtin_return_address(0)); }
ACCESS(1)
ACCESS(2)
ACCESS(4)
ACCESS(8)
ACCESS(16)

void __tsan_vptr_update(void** p, void* v)
{
	if (*p != v)
		access(p, 8, true, false, __builtin_return_address(0));
}
void __tsan_vptr_read(void** p) { access(p, 8, false, false, __builtin_return_address(0)); }
void __tsan_read_range(void* p, std::size_t n) { access(p, n, false, false, __builtin_return_address(0)); }
void __tsan_write_range(void* p, std::size_t n) { access(p, n, true, false, __builtin_return_address(0)); }

void* __tsan_memcpy(void* d, const void* s, std::size_t n)
{
	access(const_cast<void*>(s), n, false, false, __builtin_return_address(0));
	access(d, n, true, false, __builtin_return_address(0));
	return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, std::size_t n)
{
	access(const_cast<void*>(s), n, false, false, __builtin_return_address(0));
	access(d, n, true, false, __builtin_return_address(0));
	return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, std::size_t n)
{
	access(d, n, true, false, __builtin_return_address(0));
	return memset(d, c, n);
}

#define ATOMICS(bits, T) \
	T __tsan_atomic##bits##_load(const volatile T* a, int mo) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, true, false); \
		return __atomic_load_n(a, __ATOMIC_SEQ_CST); \
	} \
	void __tsan_atomic##bits##_store(volatile T* a, T v, int mo) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, false, true); \
		__atomic_store_n(a, v, __ATOMIC_SEQ_CST); \
	} \
	T __tsan_atomic##bits##_exchange(volatile T* a, T v, int mo) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, true, true); \
		return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); \
	} \
	RMW(bits, T, fetch_add) RMW(bits, T, fetch_sub) RMW(bits, T, fetch_and) RMW(bits, T, fetch_or) \
	RMW(bits, T, fetch_xor) RMW(bits, T, fetch_nand) \
	int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int mo, int) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, true, true); \
		return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
	} \
	int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int mo, int) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, true, true); \
		return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
	} \
	T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int mo, int) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, true, true); \
		__atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
		return c; \
	}
#define RMW(bits, T, name) \
	T __tsan_atomic##bits##_##name(volatile T* a, T v, int mo) \
	{ \
		if (managed()) \
			atomicPoint(const_cast<T*>(a), mo, true, true); \
		return __atomic_##name(a, v, __ATOMIC_SEQ_CST); \
	}
ATOMICS(8, std::uint8_t)
ATOMICS(16, std::uint16_t)
ATOMICS(32, std::uint32_t)
ATOMICS(64, std::uint64_t)

void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

} // extern "C"
