#include "hooks.h"
#include "report.h"

#include <atomic>
#include <cerrno>
#include <mutex>
#include <netcdf.h>
#include <pthread.h>
#include <sched.h>
#include <time.h>
#include <unistd.h>

#ifdef VERIF_SAN_ASAN
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

vf::Report vf::report;

namespace {

thread_local unsigned tlIndex = 0;
thread_local int tlCpu = 0;
thread_local int tlQuiet = 0;
thread_local bool tlMarked = false;
std::atomic<bool> markedOnly(false);
thread_local uint64_t tlRng = 0;

// Spin lock built on an atomic so that it neither recurses into the wrapped
// pthread functions nor adds happens-before edges between library threads
// that the library itself does not create (relaxed order on purpose).
struct Spin
{
	std::atomic<int> f;
	void lock() { while (f.exchange(1, std::memory_order_acquire)) sched_yield(); }
	void unlock() { f.store(0, std::memory_order_release); }
};

std::vector<int> topology;
std::atomic<bool> logOn(false);
Spin logLock;
std::vector<vf::ReadEvent> theLog;
std::atomic<uint64_t> nReads(0), nCoord(0), nOpen(0), nClose(0), nOverlap(0);
std::atomic<int> inLibrary(0);

std::atomic<int> pPercent(0);
std::atomic<unsigned> pMax(0), rdDelay(0);
std::atomic<uint64_t> pSeed(1);
std::atomic<int> sPercent(0);
std::atomic<uint64_t> nSpurious(0), nPerturb(0);
std::atomic<uint64_t> fOpenMask(0), nFailedOpens(0);

uint64_t rnd()
{
	if (tlRng == 0)
		tlRng = vf::mix(pSeed.load(std::memory_order_relaxed) * 1315423911u + tlIndex * 2654435761u + 1) | 1;
	tlRng = vf::mix(tlRng) | 1;
	return tlRng >> 8;
}

void usl(unsigned us)
{
	struct timespec ts = { (time_t) (us / 1000000), (long) (us % 1000000) * 1000 };
	nanosleep(&ts, 0);
}

thread_local int tlSlowP = 0;
thread_local unsigned tlSlowMax = 0;

void maybeDelay()
{
	if (tlSlowP > 0 && (int) (rnd() % 100) < tlSlowP) {
		nPerturb.fetch_add(1, std::memory_order_relaxed);
		usl(rnd() % (tlSlowMax + 1));
		return;
	}
	int p = pPercent.load(std::memory_order_relaxed);
	if (p <= 0 || (int) (rnd() % 100) >= p)
		return;
	nPerturb.fetch_add(1, std::memory_order_relaxed);
	unsigned m = pMax.load(std::memory_order_relaxed);
	uint64_t r = rnd();
	if (m == 0 || (r & 3) == 0)
		sched_yield();
	else
		usl((r >> 4) % (m + 1));
}

thread_local int tlInNc = 0;

struct NcCall
{
	bool q;
	NcCall() : q(tlQuiet > 0)
	{
		tlInNc++;
		if (!q) {
			maybeDelay();
			if (inLibrary.fetch_add(1, std::memory_order_relaxed) > 0)
				nOverlap.fetch_add(1, std::memory_order_relaxed);
			maybeDelay(); // room for another thread to come in
		}
	}
	~NcCall()
	{
		tlInNc--;
		if (!q)
			inLibrary.fetch_sub(1, std::memory_order_relaxed);
	}
};

// ---- thread-specific keys ------------------------------------------------
unsigned char keyAlive[4096];
long nKeys = 0;
uint64_t nBadKey = 0;
// called by the sanitizer runtime before it is initialised
#define EARLY __attribute__((disable_sanitizer_instrumentation))

// ---- heap blocks alive ---------------------------------------------------
const size_t HEAP_SLOTS = 1 << 20;
struct HeapSlot { uintptr_t p; size_t n; };
HeapSlot* heapTab = 0;
Spin heapLock;
std::atomic<bool> heapOn(false);
std::atomic<long> heapBlocks(0), heapBytes(0);
std::atomic<uint64_t> heapAllocs(0);

size_t heapHash(uintptr_t p) { return (size_t) (vf::mix(p) & (HEAP_SLOTS - 1)); }

void heapMalloc(const volatile void* p, size_t n)
{
	if (!p || !heapOn.load(std::memory_order_relaxed) || tlInNc > 0 || tlQuiet > 0 || (markedOnly.load(std::memory_order_relaxed) && !tlMarked))
		return;
	heapLock.lock();
	if (heapBlocks.load() < (long) HEAP_SLOTS / 2) {
		size_t i = heapHash((uintptr_t) p);
		while (heapTab[i].p > 1) i = (i + 1) & (HEAP_SLOTS - 1);
		heapTab[i].p = (uintptr_t) p;
		heapTab[i].n = n;
		heapBlocks++;
		heapBytes += n;
		heapAllocs++;
	}
	heapLock.unlock();
}

void heapFree(const volatile void* p)
{
	if (!p || !heapTab || heapBlocks.load() == 0)
		return;
	heapLock.lock();
	size_t i = heapHash((uintptr_t) p);
	while (heapTab[i].p) {
		if (heapTab[i].p == (uintptr_t) p) {
			heapTab[i].p = 1; // tombstone
			heapBlocks--;
			heapBytes -= heapTab[i].n;
			break;
		}
		i = (i + 1) & (HEAP_SLOTS - 1);
	}
	heapLock.unlock();
}

void logRead(int ncid, int varid, const size_t* start, const size_t* count)
{
	if (tlQuiet > 0)
		return;
	unsigned d = rdDelay.load(std::memory_order_relaxed);
	if (d)
		usl(d);
	nReads.fetch_add(1, std::memory_order_relaxed);
	if (!logOn.load(std::memory_order_relaxed))
		return;
	vf::ReadEvent e;
	e.ncid = ncid;
	e.varid = varid;
	e.thread = tlIndex;
	int nd = 0;
	tlQuiet++;
	nc_inq_varndims(ncid, varid, &nd);
	tlQuiet--;
	for (int i = 0; i < nd; i++) {
		e.start.push_back(start ? start[i] : 0);
		e.count.push_back(count ? count[i] : 1);
	}
	logLock.lock();
	theLog.push_back(e);
	logLock.unlock();
}

}

namespace vf {

void heapMarkedOnly(bool on) { markedOnly = on; }
Foreign::Foreign() { tlInNc++; }
Foreign::~Foreign() { tlInNc--; }
void setThread(unsigned index, int cpu) { tlMarked = true; tlIndex = index; tlCpu = cpu; tlRng = 0; }
unsigned threadIndex() { return tlIndex; }
void setTopology(const std::vector<int>& t) { topology = t; }
void readLogEnable(bool on) { logOn = on; }
void readLogClear() { logLock.lock(); theLog.clear(); logLock.unlock(); }
std::vector<ReadEvent> readLog() { logLock.lock(); std::vector<ReadEvent> c = theLog; logLock.unlock(); return c; }
uint64_t readCount() { return nReads; }
uint64_t coordReadCount() { return nCoord; }
uint64_t openCount() { return nOpen; }
uint64_t closeCount() { return nClose; }
uint64_t libraryOverlap() { return nOverlap; }
void perturb(int percent, unsigned maxUsec, uint64_t seed) { pSeed = seed; pMax = maxUsec; pPercent = percent; }
void readDelay(unsigned usec) { rdDelay = usec; }
void spurious(int percent, uint64_t seed) { if (percent) pSeed = seed; sPercent = percent; }
uint64_t spuriousCount() { return nSpurious; }
uint64_t perturbCount() { return nPerturb; }
void failOpenThreads(uint64_t mask) { fOpenMask = mask; }
uint64_t failedOpens() { return nFailedOpens; }
void trackHeap(bool on)
{
#ifdef VERIF_SAN_ASAN
	if (!heapTab) {
		heapTab = (HeapSlot*) calloc(HEAP_SLOTS, sizeof(HeapSlot));
		__sanitizer_install_malloc_and_free_hooks(&heapMalloc, &heapFree);
	}
	heapOn = on;
#else
	(void) on;
#endif
}
long liveBlocks() { return heapBlocks; }
long liveBytes() { return heapBytes; }
uint64_t trackedAllocations() { return heapAllocs; }
long liveKeys() { return __atomic_load_n(&nKeys, __ATOMIC_RELAXED); }
uint64_t badKeyDeletes() { return __atomic_load_n(&nBadKey, __ATOMIC_RELAXED); }
Quiet::Quiet() { tlQuiet++; }
Quiet::~Quiet() { tlQuiet--; }

}

extern "C" {

// ---- NUMA topology -------------------------------------------------------
int __wrap_sched_getcpu() { return tlCpu; }
int __wrap_numa_node_of_cpu(int cpu)
{
	if (cpu >= 0 && (size_t) cpu < topology.size())
		return topology[cpu];
	return 0;
}

// ---- pthread -------------------------------------------------------------
int __real_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*);
int __wrap_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
{
	int p = sPercent.load(std::memory_order_relaxed);
	if (p > 0 && (int) (rnd() % 100) < p) {
		// A spurious wake-up: POSIX allows the wait to return at any time
		nSpurious.fetch_add(1, std::memory_order_relaxed);
		pthread_mutex_unlock(m);
		usl(rnd() % 60);
		return pthread_mutex_lock(m);
	}
	return __real_pthread_cond_wait(c, m);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	maybeDelay();
	return __real_pthread_mutex_lock(m);
}
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	int r = __real_pthread_mutex_unlock(m);
	maybeDelay();
	return r;
}
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	maybeDelay();
	return __real_pthread_mutex_trylock(m);
}

int __real_pthread_key_create(pthread_key_t*, void (*)(void*));
EARLY int __wrap_pthread_key_create(pthread_key_t* k, void (*d)(void*))
{
	int r = __real_pthread_key_create(k, d);
	if (r == 0 && *k < 4096) {
		__atomic_store_n(&keyAlive[*k], 1, __ATOMIC_RELAXED);
		__atomic_fetch_add(&nKeys, 1, __ATOMIC_RELAXED);
	}
	return r;
}
int __real_pthread_key_delete(pthread_key_t);
EARLY int __wrap_pthread_key_delete(pthread_key_t k)
{
	if (k >= 4096 || __atomic_exchange_n(&keyAlive[k], 0, __ATOMIC_RELAXED) == 0)
		__atomic_fetch_add(&nBadKey, 1, __ATOMIC_RELAXED);
	else
		__atomic_fetch_sub(&nKeys, 1, __ATOMIC_RELAXED);
	return __real_pthread_key_delete(k);
}
int __real_pthread_spin_lock(pthread_spinlock_t*);
int __real_pthread_spin_trylock(pthread_spinlock_t*);
int __real_pthread_spin_unlock(pthread_spinlock_t*);
int __wrap_pthread_spin_lock(pthread_spinlock_t* m)
{
	maybeDelay();
	// the owner may not have a processor of its own: do not burn the time slice
	for (int i = 0; i < 200; i++)
		if (__real_pthread_spin_trylock(m) == 0)
			return 0;
	for (;;) {
		int r = __real_pthread_spin_trylock(m);
		if (r != EBUSY)
			return r;
		sched_yield();
	}
}
int __wrap_pthread_spin_unlock(pthread_spinlock_t* m)
{
	int r = __real_pthread_spin_unlock(m);
	maybeDelay();
	return r;
}
int __wrap_pthread_spin_trylock(pthread_spinlock_t* m)
{
	maybeDelay();
	return __real_pthread_spin_trylock(m);
}

// ---- netCDF --------------------------------------------------------------
int __real_nc_open(const char*, int, int*);
int __wrap_nc_open(const char* p, int mode, int* id)
{
	NcCall c;
	if (!c.q) {
		if (tlMarked && tlIndex < 64 && (fOpenMask.load() >> tlIndex & 1)) {
			nFailedOpens.fetch_add(1);
			return NC_ENFILE;
		}
	}
	int r = __real_nc_open(p, mode, id);
	if (!c.q && r == NC_NOERR)
		nOpen.fetch_add(1, std::memory_order_relaxed);
	return r;
}
int __real_nc_close(int);
int __wrap_nc_close(int id)
{
	NcCall c;
	int r = __real_nc_close(id);
	if (!c.q && r == NC_NOERR)
		nClose.fetch_add(1, std::memory_order_relaxed);
	return r;
}

#define W_INQ(NAME, PARAMS, ARGS) \
	int __real_##NAME PARAMS; \
	int __wrap_##NAME PARAMS { NcCall vfCall; return __real_##NAME ARGS; }
W_INQ(nc_inq_varid, (int a, const char* b, int* d), (a, b, d))
W_INQ(nc_inq_varndims, (int a, int b, int* d), (a, b, d))
W_INQ(nc_inq_vardimid, (int a, int b, int* d), (a, b, d))
W_INQ(nc_inq_dim, (int a, int b, char* d, size_t* e), (a, b, d, e))
W_INQ(nc_inq_vartype, (int a, int b, nc_type* d), (a, b, d))
W_INQ(nc_inq_type, (int a, nc_type b, char* d, size_t* e), (a, b, d, e))

int __real_nc_get_var1_double(int, int, const size_t*, double*);
int __wrap_nc_get_var1_double(int id, int v, const size_t* s, double* p)
{
	NcCall c;
	if (!c.q)
		nCoord.fetch_add(1, std::memory_order_relaxed);
	return __real_nc_get_var1_double(id, v, s, p);
}

W_INQ(nc_inq, (int a, int* b, int* c, int* d, int* e), (a, b, c, d, e))
W_INQ(nc_inq_var, (int a, int b, char* c, nc_type* d, int* e, int* f, int* g), (a, b, c, d, e, f, g))
W_INQ(nc_inq_varname, (int a, int b, char* d), (a, b, d))
W_INQ(nc_inq_dimid, (int a, const char* b, int* d), (a, b, d))
W_INQ(nc_inq_dimname, (int a, int b, char* d), (a, b, d))
W_INQ(nc_inq_dimlen, (int a, int b, size_t* d), (a, b, d))
int __real_nc_get_var_double(int, int, double*);
int __wrap_nc_get_var_double(int id, int v, double* p) { NcCall c; return __real_nc_get_var_double(id, v, p); }

#define W_TYPED(T, C) \
	int __real_nc_get_varm_##T(int, int, const size_t*, const size_t*, const ptrdiff_t*, const ptrdiff_t*, C*); \
	int __wrap_nc_get_varm_##T(int id, int v, const size_t* s, const size_t* n, const ptrdiff_t* st, const ptrdiff_t* m, C* p) \
	{ NcCall c; logRead(id, v, s, n); return __real_nc_get_varm_##T(id, v, s, n, st, m, p); } \
	int __real_nc_get_vars_##T(int, int, const size_t*, const size_t*, const ptrdiff_t*, C*); \
	int __wrap_nc_get_vars_##T(int id, int v, const size_t* s, const size_t* n, const ptrdiff_t* st, C* p) \
	{ NcCall c; logRead(id, v, s, n); return __real_nc_get_vars_##T(id, v, s, n, st, p); } \
	int __real_nc_get_vara_##T(int, int, const size_t*, const size_t*, C*); \
	int __wrap_nc_get_vara_##T(int id, int v, const size_t* s, const size_t* n, C* p) \
	{ NcCall c; logRead(id, v, s, n); return __real_nc_get_vara_##T(id, v, s, n, p); }
W_TYPED(uchar, unsigned char)
W_TYPED(int, int)
W_TYPED(long, long)
W_TYPED(float, float)
W_TYPED(double, double)

int __real_nc_get_varm(int, int, const size_t*, const size_t*, const ptrdiff_t*, const ptrdiff_t*, void*);
int __wrap_nc_get_varm(int id, int v, const size_t* s, const size_t* n, const ptrdiff_t* st, const ptrdiff_t* m, void* p)
{ NcCall c; logRead(id, v, s, n); return __real_nc_get_varm(id, v, s, n, st, m, p); }
int __real_nc_get_vars(int, int, const size_t*, const size_t*, const ptrdiff_t*, void*);
int __wrap_nc_get_vars(int id, int v, const size_t* s, const size_t* n, const ptrdiff_t* st, void* p)
{ NcCall c; logRead(id, v, s, n); return __real_nc_get_vars(id, v, s, n, st, p); }
int __real_nc_get_vara(int, int, const size_t*, const size_t*, void*);
int __wrap_nc_get_vara(int id, int v, const size_t* s, const size_t* n, void* p)
{ NcCall c; logRead(id, v, s, n); return __real_nc_get_vara(id, v, s, n, p); }
int __real_nc_get_var1(int, int, const size_t*, void*);
int __wrap_nc_get_var1(int id, int v, const size_t* s, void* p)
{ NcCall c; logRead(id, v, s, 0); return __real_nc_get_var1(id, v, s, p); }

}

// ---- thread pinning --------------------------------------------------------
namespace {
Spin affLock;
std::vector<std::vector<int> > affLog;
}

extern "C" int __wrap_pthread_setaffinity_np(pthread_t, size_t size, const cpu_set_t* set)
{
	// only recorded: the workload itself decides where threads run
	std::vector<int> c;
	for (size_t i = 0; i < size * 8; i++)
		if (CPU_ISSET_S(i, size, set)) c.push_back((int) i);
	affLock.lock();
	affLog.push_back(c);
	affLock.unlock();
	return 0;
}

namespace vf {
void delayPoint() { maybeDelay(); }
void slowThread(int percent, unsigned maxUsec) { tlSlowMax = maxUsec; tlSlowP = percent; }
std::vector<std::vector<int> > affinityLog() { affLock.lock(); std::vector<std::vector<int> > r = affLog; affLock.unlock(); return r; }
void affinityClear() { affLock.lock(); affLog.clear(); affLock.unlock(); }
}
