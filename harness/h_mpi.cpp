// Workloads on builds with MPI; run under mpirun. The harness itself only calls PMPI_*, the library's
// MPI_* calls pass the interposers below (resource balance, overlap detection, delays).
#include <atomic>
#include <condition_variable>
#include <deque>
#include <functional>
#include <fcntl.h>
#include <mpi.h>
#include <mutex>
#include <netcdf.h>
#include <sys/mman.h>
#include <thread>
#include <time.h>

#include "workload.h"

#include "mpi/commthread.h"
#include "mpi/mpicomm.h"
#ifdef VERIF_INTERNAL
#include "numa/numa.h"
#include "numa/numacomm.h"
#ifdef USE_MPI3
#include "mpi/mutex.h"
#endif
#endif

using namespace vf;

static std::atomic<uint64_t> warnings(0);
static std::mutex warnLock;
static std::string lastWarning;
extern "C" void verif_log_warning(const char* m)
{
	std::lock_guard<std::mutex> l(warnLock);
	lastWarning = m;
	warnings++;
}

static int wrank, wsize;
static std::atomic<uint64_t> heartbeat(0);
static uint64_t seedBase;

// ---------------------------------------------------------------------------
// Interposers
// ---------------------------------------------------------------------------
enum Res { R_COMM, R_GROUP, R_WIN, R_TYPE, R_MEM, R_N };
static const char* resName[] = { "communicators", "groups", "windows", "datatypes", "MPI memory blocks" };
static std::atomic<long> live[R_N];
static std::atomic<uint64_t> created[R_N];
static std::atomic<int> insideMpi(0);
static std::atomic<uint64_t> mpiCalls(0), mpiOverlap(0);
static std::atomic<const char*> overlapName[2];
static std::atomic<const char*> insideName;

#ifdef VERIF_SAN_TSAN
// MPI itself is not instrumented: whatever happens before a call that sends something
// happens before the return of a call that receives something
extern "C" void __tsan_acquire(void*);
extern "C" void __tsan_release(void*);
static char mpiOrder;
#define MPI_HB_RELEASE __tsan_release(&mpiOrder)
#define MPI_HB_ACQUIRE __tsan_acquire(&mpiOrder)
#else
#define MPI_HB_RELEASE
#define MPI_HB_ACQUIRE
#endif

struct Enter
{
	Foreign foreign;
	Enter(const char* n)
	{
		mpiCalls.fetch_add(1, std::memory_order_relaxed);
		delayPoint();
		if (insideMpi.fetch_add(1, std::memory_order_relaxed) > 0 && mpiOverlap.fetch_add(1, std::memory_order_relaxed) == 0) {
			overlapName[0].store(n, std::memory_order_relaxed);
			overlapName[1].store(insideName.load(std::memory_order_relaxed), std::memory_order_relaxed);
		}
		insideName.store(n, std::memory_order_relaxed);
		delayPoint();
		MPI_HB_RELEASE;
	}
	~Enter() { MPI_HB_ACQUIRE; insideMpi.fetch_sub(1, std::memory_order_relaxed); }
};

static void gain(Res r) { live[r]++; created[r]++; }

/** MPI refuses one resource */
static struct FaultyMpi
{
	std::atomic<int> kind, after, hits;

	FaultyMpi() : kind(-1), after(0), hits(0) {}

	/** The (n+1)-th resource of this kind is refused */
	void arm(int k, int n) { hits = 0; after = n; kind = k; }
	int disarm() { kind = -1; return hits.exchange(0); }
	bool refuse(int res)
	{
		if (kind != res || after--) return false;
		hits++;
		kind = -1;
		return true;
	}
} faultyMpi;

#define FWD(name, decl, call) extern "C" int MPI_##name decl { Enter e("MPI_" #name); return PMPI_##name call; }
#define FWD_GAIN(name, decl, call, res) extern "C" int MPI_##name decl { Enter e("MPI_" #name); if (faultyMpi.refuse(res)) return MPI_ERR_OTHER; int r = PMPI_##name call; if (r == MPI_SUCCESS) gain(res); return r; }
#define FWD_LOSE(name, decl, call, res) extern "C" int MPI_##name decl { Enter e("MPI_" #name); int r = PMPI_##name call; if (r == MPI_SUCCESS) live[res]--; return r; }

FWD_GAIN(Comm_dup, (MPI_Comm c, MPI_Comm* n), (c, n), R_COMM)
FWD_GAIN(Comm_split, (MPI_Comm c, int col, int key, MPI_Comm* n), (c, col, key, n), R_COMM)
FWD_GAIN(Comm_group, (MPI_Comm c, MPI_Group* g), (c, g), R_GROUP)
FWD_LOSE(Group_free, (MPI_Group* g), (g), R_GROUP)
FWD_GAIN(Win_create, (void* b, MPI_Aint s, int d, MPI_Info i, MPI_Comm c, MPI_Win* w), (b, s, d, i, c, w), R_WIN)
FWD_LOSE(Win_free, (MPI_Win* w), (w), R_WIN)
FWD_GAIN(Type_contiguous, (int n, MPI_Datatype t, MPI_Datatype* o), (n, t, o), R_TYPE)
FWD_GAIN(Type_create_struct, (int n, const int l[], const MPI_Aint d[], const MPI_Datatype t[], MPI_Datatype* o), (n, l, d, t, o), R_TYPE)
FWD_GAIN(Type_create_resized, (MPI_Datatype t, MPI_Aint lb, MPI_Aint e2, MPI_Datatype* o), (t, lb, e2, o), R_TYPE)
extern "C" int MPI_Type_commit(MPI_Datatype* t) { Enter e("MPI_Type_commit"); if (faultyMpi.refuse(R_TYPE)) return MPI_ERR_OTHER; return PMPI_Type_commit(t); }
FWD_LOSE(Type_free, (MPI_Datatype* t), (t), R_TYPE)
FWD_GAIN(Alloc_mem, (MPI_Aint s, MPI_Info i, void* b), (s, i, b), R_MEM)
FWD_LOSE(Free_mem, (void* b), (b), R_MEM)
FWD(Comm_rank, (MPI_Comm c, int* r), (c, r))
FWD(Comm_size, (MPI_Comm c, int* r), (c, r))
FWD(Barrier, (MPI_Comm c), (c))
FWD(Allreduce, (const void* s, void* r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c), (s, r, n, t, o, c))
FWD(Allgather, (const void* s, int sn, MPI_Datatype st, void* r, int rn, MPI_Datatype rt, MPI_Comm c), (s, sn, st, r, rn, rt, c))
FWD(Group_translate_ranks, (MPI_Group a, int n, const int x[], MPI_Group b, int y[]), (a, n, x, b, y))

// A slow network: MPI_Send of a short message returns at once, the message itself leaves later, possibly after
// everything else the processes do (messages of one process to another stay in order)
struct Network
{
	struct Late { MPI_Comm c; int d, tag; unsigned long v; uint64_t due; };
	std::mutex m;
	std::condition_variable cv;
	std::deque<Late> queue; // the front may be on its way
	int percent;
	unsigned maxUsec;
	Rng rng;
	std::thread worker;
	uint64_t count;
	bool stop;
	Network() : percent(0), maxUsec(0), rng(0), count(0), stop(true) {}
	static uint64_t now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ull + t.tv_nsec / 1000; }
	void start(int p, unsigned us, uint64_t seed)
	{
		if (!p) return;
		percent = p; maxUsec = us; rng = Rng(seed); count = 0; stop = false;
		worker = std::thread([this]() { run(); });
	}
	void run()
	{
		Foreign f;
		std::unique_lock<std::mutex> l(m);
		while (true) {
			cv.wait(l, [this]() { return stop || !queue.empty(); });
			if (queue.empty()) return;
			Late x = queue.front();
			l.unlock();
			uint64_t t = now();
			if (x.due > t) { struct timespec ts = { 0, (long) (x.due - t) * 1000 }; nanosleep(&ts, 0); }
			PMPI_Send(&x.v, 1, MPI_UNSIGNED_LONG, x.d, x.tag, x.c);
			l.lock();
			queue.pop_front();
			cv.notify_all();
		}
	}
	bool pending(MPI_Comm c, int d)
	{
		for (size_t i = 0; i < queue.size(); i++) if (queue[i].c == c && (d < 0 || queue[i].d == d)) return true;
		return false;
	}
	bool take(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
	{
		if (!percent || n != 1 || t != MPI_UNSIGNED_LONG) return false;
		int me;
		PMPI_Comm_rank(c, &me);
		if (me == d) return false;
		std::unique_lock<std::mutex> l(m);
		if (stop || (!pending(c, d) && !rng.chance(percent))) return false;
		Late x = { c, d, tag, *(const unsigned long*) b, now() + rng.below(maxUsec) };
		if (!queue.empty()) x.due = std::max(x.due, queue.back().due);
		queue.push_back(x);
		count++;
		cv.notify_all();
		return true;
	}
	/** Nothing overtakes a message that is still under way */
	void wait(MPI_Comm c, int d)
	{
		if (!percent) return;
		std::unique_lock<std::mutex> l(m);
		cv.wait(l, [=]() { return !pending(c, d); });
	}
	/** The slow network is over (no MPI call of the library runs at the same time any more) */
	void end()
	{
		if (!percent) return;
		{ std::lock_guard<std::mutex> l(m); stop = true; cv.notify_all(); }
		worker.join();
		percent = 0;
		if (count) report.observe("late_messages", count);
	}
};
static Network network;

extern "C" int MPI_Comm_free(MPI_Comm* c)
{
	Enter e("MPI_Comm_free");
	network.wait(*c, -1);
	int r = PMPI_Comm_free(c);
	if (r == MPI_SUCCESS) live[R_COMM]--;
	return r;
}

extern "C" int MPI_Send(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
	Enter e("MPI_Send");
	if (network.take(b, n, t, d, tag, c)) return MPI_SUCCESS;
	network.wait(c, d);
	return PMPI_Send(b, n, t, d, tag, c);
}
extern "C" int MPI_Ssend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{
	Enter e("MPI_Ssend");
	network.wait(c, d);
	return PMPI_Ssend(b, n, t, d, tag, c);
}
FWD(Recv, (void* b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status* st), (b, n, t, s, tag, c, st))
extern "C" int MPI_Isend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{
	Enter e("MPI_Isend");
	network.wait(c, d);
	return PMPI_Isend(b, n, t, d, tag, c, q);
}
extern "C" int MPI_Issend(const void* b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request* q)
{
	Enter e("MPI_Issend");
	network.wait(c, d);
	return PMPI_Issend(b, n, t, d, tag, c, q);
}

// A lazy implementation of one-sided communication: nothing happens before the origin waits for it (flush or unlock);
// until then the result is undefined and the origin buffer is still needed
struct Rma
{
	struct Op { bool ordered; std::function<int()> run; };
	std::mutex m;
	std::map<MPI_Win, std::map<int, std::vector<Op> > > queue;
	std::atomic<int> percent;
	std::atomic<uint64_t> count, epochs;
	Rng rng;
	Rma() : percent(0), count(0), epochs(0), rng(1) {}
	void start(int p, uint64_t seed) { percent = p; rng = Rng(seed); count = 0; }
	static void garbage(void* b, int n, MPI_Datatype t)
	{
		MPI_Aint lb, ext;
		int size;
		PMPI_Type_get_extent(t, &lb, &ext);
		PMPI_Type_size(t, &size);
		if (lb == 0 && ext == size) memset(b, 0xA5, (size_t) n * size);
	}
	template<typename F> int add(MPI_Win w, int target, bool ordered, void* result, int n, MPI_Datatype t, F f)
	{
		if (!percent) return f();
		{
			std::lock_guard<std::mutex> l(m);
			std::vector<Op>& q = queue[w][target];
			bool keep = rng.chance(percent);
			if (ordered) for (size_t i = 0; i < q.size(); i++) keep |= q[i].ordered;
			if (keep) {
				if (result) garbage(result, n, t);
				Op o = { ordered, f };
				q.push_back(o);
				count++;
				return MPI_SUCCESS;
			}
		}
		return f();
	}
	void complete(MPI_Win w, int target)
	{
		if (!percent) return;
		std::vector<Op> ops;
		{
			std::lock_guard<std::mutex> l(m);
			std::map<int, std::vector<Op> >& q = queue[w];
			for (std::map<int, std::vector<Op> >::iterator i = q.begin(); i != q.end(); ++i)
				if (target < 0 || i->first == target) { ops.insert(ops.end(), i->second.begin(), i->second.end()); i->second.clear(); }
			bool ordered = false;
			for (size_t i = 0; i < ops.size(); i++) ordered |= ops[i].ordered;
			if (!ordered && rng.chance(50)) std::reverse(ops.begin(), ops.end());
		}
		for (size_t i = 0; i < ops.size(); i++) { delayPoint(); ops[i].run(); }
		if (!ops.empty()) epochs++;
	}
	void end()
	{
		percent = 0;
		if (count) report.observe("lazy_rma_operations", count);
		count = 0;
		std::lock_guard<std::mutex> l(m);
		for (auto& w : queue) for (auto& t : w.second) if (!t.second.empty()) report.fail("rma-incomplete", fmt("%zu one-sided operations to rank %d were never completed", t.second.size(), t.first));
		queue.clear();
	}
};
static Rma rma;

// A process may have one access epoch per window and target only (MPI: epochs on one window are disjoint)
static struct Epochs
{
	std::mutex m;
	std::map<std::pair<MPI_Win, int>, int> open;
	std::atomic<uint64_t> count;
	Epochs() : count(0) {}
	void begin(MPI_Win w, int target)
	{
		count.fetch_add(1, std::memory_order_relaxed);
		std::lock_guard<std::mutex> l(m);
		bool other = open[std::make_pair(w, target)]++;
		if (target >= 0) { auto all = open.find(std::make_pair(w, -1)); other |= all != open.end() && all->second; }
		if (other) report.fail("epoch", fmt("a thread begins an access epoch to process %d while another thread is in an access epoch of the same window", target));
	}
	void end(MPI_Win w, int target) { std::lock_guard<std::mutex> l(m); auto i = open.find(std::make_pair(w, target)); if (i != open.end() && !--i->second) open.erase(i); }
} epochs;

extern "C" int MPI_Win_lock(int t, int r, int a, MPI_Win w)
{
	Enter e("MPI_Win_lock");
	epochs.begin(w, r);
	int ret = PMPI_Win_lock(t, r, a, w);
	if (ret != MPI_SUCCESS) epochs.end(w, r);
	return ret;
}
#define FWD_COMPLETE(name, decl, call, target) extern "C" int MPI_##name decl { Enter e("MPI_" #name); rma.complete(w, target); return PMPI_##name call; }
extern "C" int MPI_Win_unlock(int r, MPI_Win w)
{
	Enter e("MPI_Win_unlock");
	rma.complete(w, r);
	int ret = PMPI_Win_unlock(r, w);
	epochs.end(w, r);
	return ret;
}
FWD_COMPLETE(Win_unlock_all, (MPI_Win w), (w), -1)
FWD_COMPLETE(Win_fence, (int a, MPI_Win w), (a, w), -1)
FWD_COMPLETE(Win_flush, (int r, MPI_Win w), (r, w), r)
FWD_COMPLETE(Win_flush_all, (MPI_Win w), (w), -1)
FWD_COMPLETE(Win_flush_local, (int r, MPI_Win w), (r, w), r)
FWD_COMPLETE(Win_flush_local_all, (MPI_Win w), (w), -1)
extern "C" int MPI_Get(void* o, int n, MPI_Datatype t, int r, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w)
{
	Enter e("MPI_Get");
	return rma.add(w, r, false, o, n, t, [=]() { return PMPI_Get(o, n, t, r, d, tn, tt, w); });
}
extern "C" int MPI_Put(const void* o, int n, MPI_Datatype t, int r, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w)
{
	Enter e("MPI_Put");
	return rma.add(w, r, false, 0, n, t, [=]() { return PMPI_Put(o, n, t, r, d, tn, tt, w); });
}
extern "C" int MPI_Accumulate(const void* o, int n, MPI_Datatype t, int r, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{
	Enter e("MPI_Accumulate");
	return rma.add(w, r, true, 0, n, t, [=]() { return PMPI_Accumulate(o, n, t, r, d, tn, tt, op, w); });
}
extern "C" int MPI_Fetch_and_op(const void* o, void* res, MPI_Datatype t, int r, MPI_Aint d, MPI_Op op, MPI_Win w)
{
	Enter e("MPI_Fetch_and_op");
	return rma.add(w, r, true, res, 1, t, [=]() { return PMPI_Fetch_and_op(o, res, t, r, d, op, w); });
}
extern "C" int MPI_Compare_and_swap(const void* o, const void* c, void* res, MPI_Datatype t, int r, MPI_Aint d, MPI_Win w)
{
	Enter e("MPI_Compare_and_swap");
	return rma.add(w, r, true, res, 1, t, [=]() { return PMPI_Compare_and_swap(o, c, res, t, r, d, w); });
}

static std::string fakeName;
extern "C" int MPI_Get_processor_name(char* n, int* len)
{
	Enter e("MPI_Get_processor_name");
	if (fakeName.empty())
		return PMPI_Get_processor_name(n, len);
	strcpy(n, fakeName.c_str());
	*len = fakeName.size();
	return MPI_SUCCESS;
}

struct Balance
{
	long at[R_N];
	Balance() { for (int i = 0; i < R_N; i++) at[i] = live[i]; }
	void check(const char* when)
	{
		for (int i = 0; i < R_N; i++) {
			long d = live[i] - at[i];
			if (d)
				report.fail(fmt("mpi-leak:%s", resName[i]), fmt("%+ld %s after %s", d, resName[i], when));
		}
	}
};

// ---------------------------------------------------------------------------
// Harness helpers
// ---------------------------------------------------------------------------
static void pbarrier(MPI_Comm c)
{
	MPI_Request q;
	PMPI_Ibarrier(c, &q);
	int d = 0;
	while (true) {
		PMPI_Test(&q, &d, MPI_STATUS_IGNORE);
		if (d) break;
		struct timespec ts = { 0, 20000 };
		nanosleep(&ts, 0);
	}
}

static void* watchdog(void*)
{
	uint64_t last = heartbeat;
	int idle = 0;
	struct timespec t0, t1;
	while (true) {
		clock_gettime(CLOCK_MONOTONIC, &t0);
		struct timespec ts = { 1, 0 };
		nanosleep(&ts, 0);
		clock_gettime(CLOCK_MONOTONIC, &t1);
		uint64_t h = heartbeat;
		if (h != last) { last = h; idle = 0; continue; }
		// seconds in which this process was not even scheduled do not count
		if (t1.tv_sec - t0.tv_sec <= 2)
			idle++;
		if (idle >= 60) {
			report.observe("watchdog");
			report.write();
			fprintf(stderr, "VERIF-HANG rank %d: no progress for 60 s\n", wrank);
			fflush(stderr);
			_exit(95);
		}
	}
	return 0;
}

static void fatal(const std::string& key, const std::string& detail)
{
	report.fail(key, detail);
	report.write();
	PMPI_Abort(MPI_COMM_WORLD, 94);
}

static MPI_Comm pickComm(Rng& r, std::string& name, bool window = false)
{
	// Windows: Open MPI's osc/rdma names its shared memory file after the context id, which disjoint
	// communicators share; so only one communicator with more than one process at a time
	// the same draw on every rank
	MPI_Comm c;
	switch (r.below(10)) {
	case 0: case 1:
		PMPI_Comm_split(MPI_COMM_WORLD, wrank % 2 && window ? wrank : wrank % 2, wrank, &c); name = "parity"; break;
	case 2: case 3:
		PMPI_Comm_split(MPI_COMM_WORLD, 0, wsize - wrank, &c); name = "reversed"; break;
	case 4:
		PMPI_Comm_split(MPI_COMM_WORLD, wrank == 0 ? 1 : 0, -wrank, &c); name = "allbutfirst"; break;
	default:
		PMPI_Comm_dup(MPI_COMM_WORLD, &c); name = "world"; break;
	}
	return c;
}

// ---------------------------------------------------------------------------
// C17 / C18 / C19: grids shared by several processes
// ---------------------------------------------------------------------------
struct Level
{
	unsigned grid, level;
	int varid;
	VarSpec v;
	Params p;
	Blocks b;
	long cache;
};

// Sequential model of the directory of cached blocks
struct Directory
{
	std::map<long, std::vector<std::pair<unsigned, size_t> > > e; // block -> (place, slot), newest first
	std::set<long> unsure; // more holders than the directory lists: a miss is not judged any more
	void add(long b, unsigned place, size_t slot)
	{
		std::vector<std::pair<unsigned, size_t> >& x = e[b];
		x.insert(x.begin(), std::make_pair(place, slot));
		if (x.size() > 4) { x.resize(4); unsure.insert(b); }
	}
	void del(long b, unsigned place, size_t slot)
	{
		std::vector<std::pair<unsigned, size_t> >& x = e[b];
		for (size_t i = 0; i < x.size(); i++)
			if (x[i] == std::make_pair(place, slot)) { x.erase(x.begin() + i); return; }
	}
	bool any(long b) { return !e[b].empty(); }
};

struct Flush : public mpi::Receiver
{
	std::atomic<uint64_t> count;
	Flush() : count(0) {}
	void recv(int, mpi::message_t) { count++; }
};

static void modeGrid(uint64_t cs, bool cacheGrid, bool thread, bool tiny = false)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/g%llu.nc", (unsigned long long) cs), 1500);
	unsigned grids = r.chance(25) ? 2 : 1;
	bool sequential = !tiny && r.chance(35); // tiny: all threads fight for the same few blocks
	bool noEvict = cacheGrid && !tiny && r.chance(35);
	bool off = !tiny && r.chance(6);
	std::vector<Level> lv;
	for (unsigned g = 0; g < grids; g++) {
		unsigned levels = r.chance(40) ? 2 : 1;
		Kind kind = (Kind) r.below(3);
		VarSpec proto = randVar(r, kind, (AG::Type) r.below(5));
		std::string numa = r.chance(50) ? "" : (r.chance(40) ? "CACHE" : (r.chance(70) ? "ON" : "OFF"));
		for (unsigned l = 0; l < levels; l++) {
			Level x;
			x.grid = g; x.level = l;
			x.v = proto;
			x.v.seed = r.next() | 1;
			x.v.name = fmt("v%u_%u", g, l);
			x.p = randBlocks(r, f);
			x.p["VARIABLE"] = x.v.name;
			x.b = Blocks(x.p, f);
			x.cache = noEvict ? x.b.total + r.below(4) : r.range(1, tiny ? 2 : 8);
			x.p["CACHE_SIZE"] = fmt("%ld", x.cache);
			if (l == 0) {
				x.p["GRID"] = cacheGrid ? "CACHE" : "FULL";
				if (off) x.p["MPI_COMMUNICATION"] = "OFF";
				else if (thread) x.p["MPI_COMMUNICATION"] = "THREAD";
				else if (r.chance(30)) x.p["MPI_COMMUNICATION"] = "WINDOW";
				if (!numa.empty()) x.p["NUMA_COMMUNICATION"] = numa;
			}
			lv.push_back(x);
			f.vars.push_back(x.v);
		}
	}
	Topo topo = randTopo(r, tiny ? 4 : 3, 3);
	if (tiny && topo.threads == 1) { topo.threads = 2; topo.node.push_back(topo.node[0]); }
	// domains in order of registration are numbered differently on every run: only their number matters
	std::string cname;
	MPI_Comm comm = pickComm(r, cname, !thread);
	int rank, size;
	PMPI_Comm_rank(comm, &rank);
	PMPI_Comm_size(comm, &size);
	setTopology(topo.node);
	std::string cfg = describe(f) + " " + topo.str() + fmt(" np=%d comm=%s(%d) %s%s%s", wsize, cname.c_str(), size, sequential ? "seq " : "", noEvict ? "noevict " : "", thread ? "thread" : "window");
	for (size_t i = 0; i < lv.size(); i++) cfg += fmt(" | g%u %s ", lv[i].grid, describe(lv[i].v).c_str()) + pstr(lv[i].p);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	if (wrank == 0)
		writeFile(f);
	pbarrier(MPI_COMM_WORLD);
	{
		Quiet q;
		int nc;
		VF_NC(nc_open(f.path.c_str(), NC_NOWRITE, &nc));
		for (size_t i = 0; i < lv.size(); i++) VF_NC(nc_inq_varid(nc, lv[i].v.name.c_str(), &lv[i].varid));
		VF_NC(nc_close(nc));
	}
	Balance balance;
	if (thread) {
		AG::Error e = AG::startCommThread(wsize * 100, MPI_COMM_WORLD);
		if (e != AG::SUCCESS) fatal("startCommThread", errName(e));
	}
	uint64_t ls = mix(cs * 31 + wrank);
	Rng lr(ls);
	int pp = lr.chance(40) ? 0 : lr.range(1, 25);
	perturb(pp, lr.range(0, 200), ls);
	rma.start(lr.chance(60) ? lr.range(20, 100) : 0, ls);
	if (thread) network.start(lr.chance(50) ? lr.range(5, 60) : 0, lr.range(50, 3000), ls);
	readDelay(lr.chance(40) ? lr.range(0, 3000) : 0);
	spurious(lr.chance(20) ? 10 : 0, ls);
	readLogClear();
	readLogEnable(true);

	std::vector<AG*> g(grids);
	std::vector<std::vector<Level*> > byGrid(grids);
	for (size_t i = 0; i < lv.size(); i++) byGrid[lv[i].grid].push_back(&lv[i]);
	for (unsigned k = 0; k < grids; k++) {
		g[k] = createGrid(byGrid[k][0]->v);
		AG::Error e = g[k]->setComm(comm);
		if (e != AG::SUCCESS) fatal("setComm", errName(e));
		g[k]->setThreads(topo.threads);
		for (size_t l = 0; l < byGrid[k].size(); l++) apply(g[k], byGrid[k][l]->p, l);
	}

	Gate gate(topo.threads);
	std::string bad, key;
	std::mutex bm;
	uint64_t nq = 0, nMpi = 0, nNuma = 0, nFile = 0;
	std::vector<std::vector<unsigned> > cover(lv.size()), owner(lv.size());
	auto collect = [&]() {
		// who read which cell from the file so far
		std::vector<ReadEvent> log = readLog();
		for (size_t i = 0; i < lv.size(); i++) { cover[i].assign(f.cells(), 0); owner[i].assign(f.cells(), 0); }
		for (size_t k = 0; k < log.size(); k++) {
			size_t i = 0;
			while (i < lv.size() && lv[i].varid != log[k].varid) i++;
			if (i == lv.size()) { report.fail("foreign-read", "read of another variable"); continue; }
			size_t n = 1, idx[MAXD];
			for (unsigned d = 0; d < f.nd(); d++) n *= log[k].count[d];
			for (size_t c = 0; c < n; c++) {
				size_t x = c;
				for (unsigned d = 0; d < f.nd(); d++) {
					size_t cnt = log[k].count[f.nd() - d - 1];
					idx[d] = log[k].start[f.nd() - d - 1] + x % cnt;
					x /= cnt;
				}
				size_t cell = f.linear(idx);
				if (cell >= f.cells()) { report.fail("read-outside", "read outside the variable"); continue; }
				cover[i][cell]++;
				owner[i][cell] = std::max<unsigned>(owner[i][cell], 1 + rank * 16 + topo.node[log[k].thread]);
			}
		}
	};
	auto distribute = [&]() {
		for (size_t i = 0; i < lv.size(); i++) {
			PMPI_Allreduce(MPI_IN_PLACE, &cover[i][0], f.cells(), MPI_UNSIGNED, MPI_SUM, comm);
			// without MPI every process holds everything (and numbers its domains itself)
			if (!off) PMPI_Allreduce(MPI_IN_PLACE, &owner[i][0], f.cells(), MPI_UNSIGNED, MPI_MAX, comm);
		}
	};

	// sequential schedule and models (identical on every rank of the communicator)
	struct Step { int rank; unsigned thread; size_t level, cell; };
	std::vector<Step> sched;
	if (sequential) {
		Step s;
		s.cell = 0; s.level = 0;
		for (int i = 0; i < 120; i++) {
			if (r.chance(55)) { s.cell = r.below(f.cells()); s.level = r.below(lv.size()); }
			s.rank = r.below(size);
			s.thread = r.below(topo.threads);
			sched.push_back(s);
		}
	}
	Flush flush;
	int flushTag = -1;
	if (sequential && thread && cacheGrid)
		if (mpi::CommThread::commThread.registerReceiver(comm, flush, flushTag) != AG::SUCCESS) fatal("register", "registerReceiver failed");
	std::map<std::tuple<size_t, int, int>, Clock> model;
	std::vector<Directory> dir(lv.size());
	uint64_t judged = 0;

	// one straggler while the grids are opened
	unsigned slow = lr.chance(60) ? lr.below(topo.threads) : topo.threads;
	bool rare = lr.chance(50); // few long delays or many short ones
	int slowP = rare ? 5 : lr.range(30, 90);
	unsigned slowMax = rare ? 60000 : 2000;
	Team::run(topo.threads, [&](unsigned t) {
		if (t == slow) slowThread(slowP, slowMax);
		for (unsigned k = 0; k < grids; k++)
			for (size_t l = 0; l < byGrid[k].size(); l++) {
				AG::Error e = g[k]->open(f.path.c_str(), l);
				heartbeat++;
				if (e != AG::SUCCESS) fatal("open", fmt("grid %u level %zu: %s", k, l, errName(e)));
			}
		slowThread(0, 0);
		if (!sequential) {
			// straight into the accesses: nothing but open synchronises the processes
			Rng q(mix(cs + wrank * 977 + t * 31));
			int n = tiny ? 150 + q.below(200) : 60 + q.below(120);
			size_t cell = q.below(f.cells());
			std::vector<size_t> hot;
			Rng hr(cs + 5); // the same cells in all processes
			for (int i = 0; i < 4; i++) hot.push_back(hr.below(f.cells()));
			for (int i = 0; i < n; i++) {
				if (q.chance(60)) cell = tiny && q.chance(90) ? q.pick(hot) : q.below(f.cells());
				Level& x = lv[q.below(lv.size())];
				size_t idx[MAXD];
				double pos[MAXD] = { 0 };
				f.unlinear(cell, idx);
				jitter(q, f, idx, pos);
				std::string m = compareCell(g[x.grid], f, x.v, cell, pos, x.level, 1 << q.below(6));
				heartbeat++;
				if (!m.empty()) {
					std::lock_guard<std::mutex> l(bm);
					if (bad.empty()) { key = "value"; bad = fmt("thread %u access %d grid %u level %u cell %zu: %s", t, i, x.grid, x.level, cell, m.c_str()); }
				}
			}
			std::lock_guard<std::mutex> l(bm);
			nq += n;
			return;
		}
		gate.wait();
		if (t == 0) {
			collect();
			pbarrier(comm);
			distribute();
			readLogEnable(false);
		}
		gate.wait();
		Rng q(mix(cs + wrank * 977 + t * 31));
		for (size_t i = 0; i < sched.size(); i++) {
			const Step& s = sched[i];
			Level& x = lv[s.level];
			size_t idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(s.cell, idx);
			long blk = x.b.of(idx);
			const Params& gp = byGrid[x.grid][0]->p;
			std::string numa = gp.count("NUMA_COMMUNICATION") ? gp.find("NUMA_COMMUNICATION")->second : "ON";
			bool mpiOff = size == 1 || off;
			// expected service of this access
			long en = 0, em = 0, ef = 0;
			bool sure = true;
			if (t == 0) {
				int d = numa == "OFF" ? 0 : topo.node[s.thread];
				auto cacheOf = [&](int rk, int dm) -> Clock& {
					auto kk = std::make_tuple(s.level, rk, dm);
					auto it = model.find(kk);
					if (it == model.end()) it = model.insert(std::make_pair(kk, Clock(x.cache, -1))).first;
					return it->second;
				};
				std::set<int> doms(topo.node.begin(), topo.node.end());
				if (numa == "OFF") { doms.clear(); doms.insert(0); }
				auto sibling = [&]() { for (int o : doms) if (o != d && cacheOf(s.rank, o).where.count(blk)) return true; return false; };
				long ev;
				if (!cacheGrid) {
					int orank = mpiOff ? s.rank : (int) (owner[s.level][s.cell] - 1) / 16, odom = (int) (owner[s.level][s.cell] - 1) % 16;
					if (numa == "OFF") odom = 0;
					if (orank != s.rank || odom != d) {
						if (!cacheOf(s.rank, d).access(blk, ev)) {
							if (orank == s.rank) en = 1;
							else if (numa == "CACHE" && sibling()) en = 1;
							else em = 1;
						}
					}
				} else {
					unsigned place = s.rank * 16 + d;
					bool sib = sibling();
					Clock& c = cacheOf(s.rank, d);
					if (!c.access(blk, ev)) {
						size_t slot = c.where[blk];
						Directory& D = dir[s.level];
						if (ev >= 0) D.del(ev, place, slot);
						if (sib) en = 1;
						else if (mpiOff) ef = 1;
						else if (D.any(blk)) em = 1;
						else { ef = 1; if (D.unsure.count(blk)) sure = false; }
						D.add(blk, place, slot);
					}
				}
			}
			gate.wait();
			if (s.rank == rank && s.thread == t) {
				jitter(q, f, idx, pos);
				uint64_t r0 = readCount();
				AG* gg = g[x.grid];
				unsigned long n0 = gg->getCounter("numa_transfers", x.level), m0 = gg->getCounter("mpi_transfers", x.level), f0 = gg->getCounter("file_loads", x.level), a0 = gg->getCounter("accesses", x.level);
				std::string m = compareCell(gg, f, x.v, s.cell, pos, x.level, x.v.kind == BASIC && !x.v.fullRange ? 16 : 32);
				long rd = readCount() - r0, dn = gg->getCounter("numa_transfers", x.level) - n0, dm = gg->getCounter("mpi_transfers", x.level) - m0,
					df = gg->getCounter("file_loads", x.level) - f0, da = gg->getCounter("accesses", x.level) - a0;
				std::lock_guard<std::mutex> l(bm);
				nq++;
				nMpi += dm; nNuma += dn; nFile += df;
				if (bad.empty()) {
					if (!m.empty()) { key = "value"; bad = fmt("step %zu cell %zu: %s", i, s.cell, m.c_str()); }
					else if (da != 1) { key = "accesses"; bad = fmt("step %zu: accesses +%ld for one access", i, da); }
					else if (rd != df) { key = "file_loads"; bad = fmt("step %zu: file_loads +%ld, %ld file reads", i, df, rd); }
					else if (dn + dm + df > 1) { key = "once"; bad = fmt("step %zu: one access counted as numa %ld mpi %ld file %ld", i, dn, dm, df); }
				}
				// judged by thread 0, which computed the expectation
				if (bad.empty()) { key = fmt("%ld,%ld,%ld", dn, dm, df); }
			}
			gate.wait();
			if (t == 0) {
				if (s.rank == rank) {
					std::lock_guard<std::mutex> l(bm);
					long dn, dm, df;
					if (bad.empty() && sscanf(key.c_str(), "%ld,%ld,%ld", &dn, &dm, &df) == 3 && sure) {
						judged++;
						if (dn != en || dm != em || df != ef) {
							key = "service";
							bad = fmt("step %zu: rank %d thread %u (node %d) level %zu block %ld: served by numa %ld mpi %ld file %ld, expected %ld %ld %ld", i, rank, s.thread, topo.node[s.thread], s.level, blk, dn, dm, df, en, em, ef);
						}
					}
				}
				if (thread && cacheGrid) {
					// directory updates are asynchronous: behind this message they are all processed
					if (s.rank == rank)
						for (int d = 0; d < size; d++) mpi::CommThread::commThread.send(flushTag, d, i);
					while (flush.count < i + 1) { struct timespec ts = { 0, 20000 }; nanosleep(&ts, 0); }
				}
				pbarrier(comm);
				heartbeat++;
			}
			gate.wait();
		}
	});
	if (flushTag >= 0) {
		pbarrier(comm);
		mpi::CommThread::commThread.unregisterReceiver(flushTag);
	}
	pbarrier(comm);
	if (!bad.empty()) report.fail((cacheGrid ? "cache:" : "full:") + key, bad);
	if (!sequential) { collect(); distribute(); }
	readLogEnable(false);
	bool mpiOff = size == 1 || off;
	unsigned doms = topo.domains();
	for (size_t i = 0; i < lv.size(); i++) {
		if (cacheGrid && (sequential || !noEvict || thread))
			continue;
		unsigned want = mpiOff && !off ? 1 : (off ? (unsigned) size : 1);
		size_t never = 0, wrong = 0, at = 0;
		for (size_t c = 0; c < f.cells(); c++) {
			if (cover[i][c] == 0) never++;
			if (cacheGrid ? (!mpiOff && cover[i][c] > 1) : cover[i][c] != want) { wrong++; at = c; }
		}
		report.observe("cells_covered", f.cells() - never);
		if (wrong) {
			if (cacheGrid) report.fail("cache:read-twice", fmt("grid %u level %u: cell %zu was read %u times from the file although no cache was full (%zu such cells)", lv[i].grid, lv[i].level, at, cover[i][at], wrong));
			else report.fail("full:coverage", fmt("grid %u level %u: cell %zu was read %u times, expected %u (%zu such cells)", lv[i].grid, lv[i].level, at, cover[i][at], want, wrong));
		}
		if (!cacheGrid && !off && !wrong) {
			// blocks per place
			std::map<unsigned, std::set<size_t> > per;
			for (size_t c = 0; c < f.cells(); c++) {
				size_t idx[MAXD];
				f.unlinear(c, idx);
				per[owner[i][c]].insert(lv[i].b.of(idx));
			}
			const Params& gp = byGrid[lv[i].grid][0]->p;
			unsigned d = gp.count("NUMA_COMMUNICATION") && gp.find("NUMA_COMMUNICATION")->second == "OFF" ? 1 : doms;
			size_t share = (lv[i].b.total + d * size - 1) / (d * size);
			for (auto& k : per)
				if (d > 1 && k.second.size() > share)
					report.fail("full:share", fmt("rank %u node %u holds %zu of %zu blocks, at most %zu expected", (k.first - 1) / 16, (k.first - 1) % 16, k.second.size(), lv[i].b.total, share));
			report.observe("places", per.size());
		}
	}
	for (unsigned k = 0; k < grids; k++)
		AG::close(g[k]);
	perturb(0, 0, 0); readDelay(0); spurious(0, 0);
	network.end();
	rma.end();
	if (thread) {
		pbarrier(MPI_COMM_WORLD);
		AG::stopCommThread();
	}
	balance.check(thread ? "closing the grids and stopping the communication thread" : "closing the grids");
	if (warnings.exchange(0)) report.fail("warning", "the library reported: " + lastWarning);
	pbarrier(MPI_COMM_WORLD);
	PMPI_Comm_free(&comm);
	if (wrank == 0) unlink(f.path.c_str());
	heartbeat++;
	report.observe("values_compared", nq);
	report.observe("mpi_transfers", nMpi);
	report.observe("numa_transfers", nNuma);
	report.observe("file_loads", nFile);
	report.observe("services_judged", judged);
	report.observe(thread ? "grids_thread" : "grids_window", grids);
	if (size > 1) report.observe("shared_grids", grids);
	size_t blocks = 0;
	for (size_t i = 0; i < lv.size(); i++) blocks += lv[i].b.total;
	report.eval(size > 1 && blocks > lv.size() ? cfg : "");
	if (wrank == 0) report.sample(cfg);
}

static std::string randGrid(Rng& r, Params& p, bool& thread)
{
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	p["GRID"] = grids[r.below(5) % 3];
	p["CACHE_SIZE"] = fmt("%d", r.range(1, 8));
	static const char* numas[] = { "ON", "OFF", "CACHE" };
	if (r.chance(50)) p["NUMA_COMMUNICATION"] = numas[r.below(3)];
	thread = false;
	if (r.chance(15)) p["MPI_COMMUNICATION"] = "OFF";
	else if (r.chance(30)) p["MPI_COMMUNICATION"] = "WINDOW";
#ifndef THREADSAFE_MPI
	else if (r.chance(70)) { p["MPI_COMMUNICATION"] = "THREAD"; thread = true; }
#endif
	return p["GRID"];
}

// Whole life cycles, repeated: everything acquired is released, errors are the same everywhere
static void modeLife(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/l%llu.nc", (unsigned long long) cs), 400);
	unsigned levels = 1 + r.below(3);
	VarSpec base = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
	std::vector<VarSpec> vs;
	for (unsigned l = 0; l < levels; l++) { VarSpec v = base; v.name = fmt("v%u", l); v.seed = r.next(); vs.push_back(v); }
	f.vars = vs;
	Params p = randBlocks(r, f);
	bool thread;
	randGrid(r, p, thread);
	Topo topo = randTopo(r, 4, 3);
	setTopology(topo.node);
	int kind = std::min(5u, (unsigned) r.below(8));
	static const char* kn[] = { "plain", "missing-file-first", "missing-variable-first", "never-opened", "file-missing-for-some-threads", "refused-by-mpi" };
	bool restart = thread && r.chance(40);
	std::string cname;
	MPI_Comm comm = pickComm(r, cname, !thread);
	std::string cfg = fmt("%s levels=%u np=%d comm=%s%s ", kn[kind], levels, wsize, cname.c_str(), restart ? " restart" : "") + describe(f) + " " + describe(base) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	if (wrank == 0) writeFile(f);
	pbarrier(MPI_COMM_WORLD);
	uint64_t ls = mix(cs * 31 + wrank), qs = r.next() + wrank;
	// Threads that cannot open the file at first; the processes agree if they share the grid
	uint64_t faulty = ls & 1 ? mix(ls) & mix(ls + 1) : 0;
	bool shared = p["GRID"] != "PASS_THROUGH" && p["MPI_COMMUNICATION"] != "OFF";
	std::atomic<unsigned> failed(0);
	// A resource MPI does not provide: memory is refused to some processes only, the rest to all of them
	int refuse = (int[]) { R_WIN, R_WIN, R_WIN, R_MEM, R_MEM, R_COMM, R_TYPE, R_TYPE }[r.below(8)], refuseAfter = r.chance(60) ? 0 : r.below(4);
	bool refuseHere = (refuse != R_MEM && refuse != R_TYPE) || r.chance(30) || ls & 2;
	perturb(r.chance(60) ? 0 : r.range(1, 15), r.range(0, 100), ls);
	rma.start(ls % 7 < 3 ? 0 : 20 + ls / 8 % 81, ls);
	if (thread) network.start(ls % 100 < 60 ? 5 + ls / 100 % 60 : 0, 50 + ls / 10000 % 4000, ls);
	std::mutex bm;
	std::string bad;
	auto start = [&]() {
		AG::Error e;
		if (kind == 5 && refuse == R_COMM) {
			faultyMpi.arm(R_COMM, 0);
			e = AG::startCommThread(wsize * 100, MPI_COMM_WORLD);
			if (faultyMpi.disarm() && e != AG::MPI_ERROR) bad = fmt("startCommThread returned %s without a communicator", errName(e));
			else failed++;
		}
		e = AG::startCommThread(wsize * 100, MPI_COMM_WORLD); if (e != AG::SUCCESS) fatal("startCommThread", errName(e)); };
	auto cycle = [&]() {
		AG* g = createGrid(vs[0]);
		AG::Error e;
		if (kind == 5 && refuse == R_COMM) {
			faultyMpi.arm(R_COMM, 0);
			e = g->setComm(comm);
			if (faultyMpi.disarm() && e != AG::MPI_ERROR) bad = fmt("setComm returned %s without a communicator", errName(e));
			else failed++;
		}
		e = g->setComm(comm);
		if (e != AG::SUCCESS) fatal("setComm", errName(e));
		g->setThreads(topo.threads);
		apply(g, p, 0);
		for (unsigned l = 0; l < vs.size(); l++) {
			for (Params::const_iterator i = p.begin(); i != p.end(); ++i) g->setParam(i->first.c_str(), i->second.c_str(), l);
			g->setParam("VARIABLE", vs[l].name.c_str(), l);
		}
		Gate gate(topo.threads);
		Team::run(topo.threads, [&](unsigned t) {
			Rng q(qs + t);
			if (kind == 3) return; // never opened
			AG::Error want = AG::SUCCESS, got = AG::SUCCESS;
			unsigned first = 0;
			if (kind == 4) {
				static std::atomic<int> nFailed;
				gate.wait();
				if (t == 0) { nFailed = -(int) failedOpens(); failOpenThreads(faulty); }
				gate.wait();
				got = g->open(f.path.c_str());
				gate.wait();
				if (t == 0) {
					failOpenThreads(0);
					int n = nFailed + (int) failedOpens();
					if (shared) PMPI_Allreduce(MPI_IN_PLACE, &n, 1, MPI_INT, MPI_SUM, comm);
					nFailed = n;
					if (n) failed++;
				}
				gate.wait();
				if (nFailed) want = AG::NOT_OPEN;
				else first = 1;
			}
			if (kind == 5 && refuse != R_COMM) {
				static std::atomic<int> refused;
				gate.wait();
				if (t == 0 && refuseHere) faultyMpi.arm(refuse, refuseAfter);
				gate.wait();
				got = g->open(f.path.c_str());
				gate.wait();
				if (t == 0) {
					int n = faultyMpi.disarm();
					if (shared) PMPI_Allreduce(MPI_IN_PLACE, &n, 1, MPI_INT, MPI_SUM, comm);
					refused = n;
					if (n) failed++;
				}
				gate.wait();
				if (refused) want = AG::MPI_ERROR;
				else first = 1;
			}
			if (kind == 1) { want = AG::NOT_OPEN; got = g->open("/nonexistent/file.nc"); }
			if (kind == 2) {
				gate.wait();
				if (t == 0) g->setParam("VARIABLE", "nope");
				gate.wait();
				want = AG::VAR_NOT_FOUND;
				got = g->open(f.path.c_str());
				gate.wait();
				if (t == 0) g->setParam("VARIABLE", vs[0].name.c_str());
				gate.wait();
			}
			if (got != want) { std::lock_guard<std::mutex> l(bm); bad = fmt("open returned %s on thread %u instead of %s", errName(got), t, errName(want)); }
			heartbeat++;
			for (unsigned l = first; l < vs.size(); l++) {
				AG::Error e = g->open(f.path.c_str(), l);
				if (e != AG::SUCCESS) fatal("open", fmt("level %u: %s", l, errName(e)));
			}
			heartbeat++;
			for (int i = 0; i < 12; i++) {
				unsigned l = q.below(vs.size());
				size_t cell = q.below(f.cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				f.unlinear(cell, idx);
				jitter(q, f, idx, pos);
				std::string m = compareCell(g, f, vs[l], cell, pos, l, 32);
				if (!m.empty()) { std::lock_guard<std::mutex> l(bm); bad = m; }
				heartbeat++;
			}
		});
		AG::close(g);
	};
	long keys0 = liveKeys();
	uint64_t o0 = openCount(), c0 = closeCount();
	heapMarkedOnly(true);
	setThread(0, 0);
	Balance balance;
	const int cycles = 5;
	long b0 = 0, y0 = 0;
	trackHeap(true);
	uint64_t t0 = trackedAllocations();
	if (thread && !restart) start();
	for (int i = 0; i < cycles + 2; i++) {
		if (restart) start();
		cycle();
		if (restart) { pbarrier(MPI_COMM_WORLD); AG::stopCommThread(); }
		if (i == 1) { b0 = liveBlocks(); y0 = liveBytes(); }
	}
	if (thread && !restart) { pbarrier(MPI_COMM_WORLD); AG::stopCommThread(); }
	long b1 = liveBlocks(), y1 = liveBytes();
	trackHeap(false);
	heapMarkedOnly(false);
	perturb(0, 0, 0);
	network.end();
	rma.end();
	if (!bad.empty()) report.fail("life", bad);
#ifdef VERIF_SAN_ASAN
	if (b1 - b0 >= cycles)
		report.fail(fmt("mpi-memory:%s", kn[kind]), fmt("%ld heap blocks (%ld bytes) stay allocated after %d cycles", b1 - b0, y1 - y0, cycles));
	report.observe("heap_blocks_tracked", trackedAllocations() - t0);
#endif
	if (liveKeys() != keys0) report.fail(fmt("mpi-keys:%s", kn[kind]), fmt("%ld thread-specific keys left", liveKeys() - keys0));
	if (openCount() - o0 != closeCount() - c0) report.fail(fmt("mpi-file:%s", kn[kind]), fmt("%lu files opened, %lu closed", (unsigned long) (openCount() - o0), (unsigned long) (closeCount() - c0)));
	balance.check(fmt("life cycles (%s)", kn[kind]).c_str());
	if (warnings.exchange(0)) report.fail("warning", "the library reported: " + lastWarning);
	pbarrier(MPI_COMM_WORLD);
	PMPI_Comm_free(&comm);
	if (wrank == 0) unlink(f.path.c_str());
	heartbeat++;
	report.observe("cycles", cycles + 2);
	report.observe(std::string("lifecycle_") + kn[kind]);
	if (failed) report.observe(kind == 5 ? refuse == R_COMM ? "communicators_refused" : refuse == R_WIN ? "windows_refused" : refuse == R_TYPE ? "types_refused" : "memory_refused" : "opens_failed_for_some_threads", failed);
	uint64_t made = 0;
	for (int i = 0; i < R_N; i++) made += created[i];
	report.observe("mpi_resources_created", made);
	for (int i = 0; i < R_N; i++) created[i] = 0;
	report.eval(wsize > 1 ? cfg : "");
	if (wrank == 0) report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C22 / C25 / C27: several distributed grids, each with its own threads. Grids are opened and closed one after the
// other (in the same order on all processes), while the threads of the other grids go on reading.
// ---------------------------------------------------------------------------
static void modeConc(uint64_t cs)
{
	Rng r(cs);
	unsigned S = 2 + r.below(3); // squads
	std::vector<FileSpec> fs(S);
	std::vector<Params> ps(S);
	std::vector<unsigned> first(S), count(S);
	std::vector<int> node;
	std::vector<MPI_Comm> comm(S);
	bool anyThread = false;
	std::string cfg = fmt("np=%d squads=%u", wsize, S);
	for (unsigned q = 0; q < S; q++) {
		fs[q] = randFile(r, scratchDir() + fmt("/k%llu_%u.nc", (unsigned long long) cs, q), 400);
		fs[q].vars.push_back(randVar(r, (Kind) r.below(3), (AG::Type) r.below(5)));
		ps[q] = randBlocks(r, fs[q]);
		bool thread;
		randGrid(r, ps[q], thread);
		ps[q]["VARIABLE"] = fs[q].vars[0].name;
		anyThread |= thread;
		Topo t = randTopo(r, 3, 2);
		first[q] = node.size();
		count[q] = t.threads;
		node.insert(node.end(), t.node.begin(), t.node.end());
		PMPI_Comm_dup(MPI_COMM_WORLD, &comm[q]);
		cfg += " | " + describe(fs[q]) + " " + describe(fs[q].vars[0]) + " " + t.str() + " " + pstr(ps[q]);
		if (wrank == 0) writeFile(fs[q]);
	}
	setTopology(node);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	pbarrier(MPI_COMM_WORLD);
	// who opens (or closes) next
	std::vector<unsigned> order;
	unsigned cycles = 1 + r.below(3);
	for (unsigned i = 0; i < 2 * cycles * S; i++) order.push_back(i % S);
	for (unsigned i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	Balance balance;
	long keys0 = liveKeys();
	uint64_t o0 = openCount(), c0 = closeCount();
	if (anyThread) {
		AG::Error e = AG::startCommThread(wsize * 100, MPI_COMM_WORLD);
		if (e != AG::SUCCESS) fatal("startCommThread", errName(e));
	}
	uint64_t ls = mix(cs * 31 + wrank);
	Rng lr(ls);
	perturb(lr.chance(30) ? 0 : lr.range(1, 25), lr.range(0, 200), ls);
	rma.start(lr.chance(60) ? lr.range(20, 100) : 0, ls);
	if (anyThread) network.start(lr.chance(50) ? lr.range(5, 60) : 0, lr.range(50, 2000), ls);
	readDelay(lr.chance(30) ? lr.range(0, 1000) : 0);
	std::atomic<unsigned> ticket(0);
	std::vector<AG*> g(S, (AG*) 0);
	std::vector<Gate*> gate;
	for (unsigned q = 0; q < S; q++) gate.push_back(new Gate(count[q]));
	std::mutex bm;
	std::string bad;
	std::atomic<uint64_t> compared(0), opened(0);
	uint64_t qs = mix(cs * 77 + wrank);
	Team::run(node.size(), [&](unsigned t) {
		unsigned q = 0;
		while (q + 1 < S && first[q + 1] <= t) q++;
		bool head = t == first[q];
		Rng x(qs + t);
		for (unsigned i = 0; i < order.size(); i++) {
			if (order[i] != q) continue;
			int done = 0;
			while (ticket.load(std::memory_order_acquire) != i || (g[q] && done < 8)) {
				if (!g[q]) { struct timespec ts = { 0, 100000 }; nanosleep(&ts, 0); continue; }
				size_t cell = x.below(fs[q].cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				fs[q].unlinear(cell, idx);
				jitter(x, fs[q], idx, pos);
				std::string m = compareCell(g[q], fs[q], fs[q].vars[0], cell, pos, 0, 32);
				if (!m.empty()) { std::lock_guard<std::mutex> l(bm); bad = fmt("squad %u: ", q) + m; }
				compared.fetch_add(1, std::memory_order_relaxed);
				heartbeat++;
				if (++done % 64 == 0) { struct timespec ts = { 0, 200000 }; nanosleep(&ts, 0); }
			}
			gate[q]->wait();
			if (!g[q]) {
				AG* n = 0;
				if (head) {
					n = createGrid(fs[q].vars[0]);
					AG::Error e = n->setComm(comm[q]);
					if (e != AG::SUCCESS) fatal("setComm", errName(e));
					n->setThreads(count[q]);
					apply(n, ps[q], 0);
				}
				gate[q]->wait();
				if (head) g[q] = n;
				gate[q]->wait();
				AG::Error e = g[q]->open(fs[q].path.c_str());
				if (e != AG::SUCCESS) fatal("open", errName(e));
				opened.fetch_add(1, std::memory_order_relaxed);
				gate[q]->wait();
			} else {
				AG* old = g[q];
				gate[q]->wait();
				if (head) { g[q] = 0; AG::close(old); }
				gate[q]->wait();
			}
			heartbeat++;
			if (head) ticket.store(i + 1, std::memory_order_release);
		}
	});
	perturb(0, 0, 0); readDelay(0);
	rma.end();
	if (anyThread) {
		pbarrier(MPI_COMM_WORLD);
		network.end();
		AG::stopCommThread();
	}
	if (!bad.empty()) report.fail("conc:value", bad);
	balance.check("life cycles of several grids");
	if (liveKeys() != keys0) report.fail("conc:keys", fmt("%ld thread-specific keys left", liveKeys() - keys0));
	if (openCount() - o0 != closeCount() - c0) report.fail("conc:file", fmt("%lu files opened, %lu closed", (unsigned long) (openCount() - o0), (unsigned long) (closeCount() - c0)));
	if (warnings.exchange(0)) report.fail("warning", "the library reported: " + lastWarning);
	pbarrier(MPI_COMM_WORLD);
	for (unsigned q = 0; q < S; q++) {
		PMPI_Comm_free(&comm[q]);
		if (wrank == 0) unlink(fs[q].path.c_str());
		delete gate[q];
	}
	heartbeat++;
	report.observe("values_compared", compared);
	report.observe("concurrent_opens", opened);
	report.eval(wsize > 1 ? cfg : "");
	if (wrank == 0) report.sample(cfg);
}

#ifndef THREADSAFE_MPI
// Without communication thread: an error on every thread of every process, and nothing is left behind
static void modeNoThread(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/n%llu.nc", (unsigned long long) cs), 300);
	VarSpec v = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
	f.vars.push_back(v);
	Params p = randBlocks(r, f);
	p["VARIABLE"] = v.name;
	p["GRID"] = r.chance(50) ? "CACHE" : "FULL";
	p["MPI_COMMUNICATION"] = "THREAD";
	if (r.chance(50)) p["NUMA_COMMUNICATION"] = r.chance(50) ? "CACHE" : "ON";
	p["CACHE_SIZE"] = fmt("%d", r.range(1, 8));
	Topo topo = randTopo(r, 4, 4);
	setTopology(topo.node);
	std::string cfg = describe(f) + " " + topo.str() + fmt(" np=%d ", wsize) + pstr(p);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	if (wrank == 0) writeFile(f);
	pbarrier(MPI_COMM_WORLD);
	uint64_t ls = mix(cs * 31 + wrank);
	perturb(r.chance(40) ? 0 : r.range(1, 25), r.range(0, 200), ls);
	Balance balance;
	AG* g = createGrid(v);
	g->setComm(MPI_COMM_WORLD);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	std::vector<AG::Error> e(topo.threads, AG::SUCCESS);
	Team::run(topo.threads, [&](unsigned t) { e[t] = g->open(f.path.c_str(), 0); heartbeat++; });
	for (unsigned t = 0; t < topo.threads; t++)
		if (e[t] != AG::NOT_INITIALIZED) { report.fail("nothread", fmt("open without communication thread returned %s on thread %u", errName(e[t]), t)); break; }
	AG::close(g);
	perturb(0, 0, 0);
	balance.check("a failed open");
	if (warnings.exchange(0)) report.fail("warning", "the library reported: " + lastWarning);
	pbarrier(MPI_COMM_WORLD);
	if (wrank == 0) unlink(f.path.c_str());
	heartbeat++;
	report.observe("failed_opens", topo.threads);
	report.eval(wsize > 1 && topo.domains() > 1 ? cfg : "");
	if (wrank == 0) report.sample(cfg);
}
#endif

// ---------------------------------------------------------------------------
// C20: node-local ranks
// ---------------------------------------------------------------------------
static void modeLocalRank(uint64_t cs)
{
	Rng r(cs);
	std::string cname;
	MPI_Comm comm = pickComm(r, cname);
	int rank, size;
	PMPI_Comm_rank(comm, &rank);
	PMPI_Comm_size(comm, &size);
	// a set of host names: random lengths, names with equal checksums, long names
	std::vector<std::string> hosts;
	unsigned n = 1 + r.below(3);
	for (unsigned i = 0; i < n; i++) {
		std::string h;
		unsigned len = r.chance(30) ? 1 + r.below(8) : (r.chance(50) ? 8 + r.below(40) : 60 + r.below(190));
		for (unsigned k = 0; k < len; k++) h += "abcdefghijklmnopqrstuvwxyz0123456789-."[r.below(38)];
		if (i && r.chance(50) && hosts[i - 1].size() >= 3) {
			// same Adler-32 checksum: +1, -2, +1 on three consecutive characters
			h = hosts[i - 1];
			size_t k = r.below(h.size() - 2);
			h[k] += 1; h[k + 1] -= 2; h[k + 2] += 1;
			report.observe("colliding_names");
		}
		hosts.push_back(h);
	}
	std::vector<int> host(wsize);
	for (int i = 0; i < wsize; i++) host[i] = r.below(n);
	fakeName = r.chance(10) ? "" : hosts[host[wrank]];
	bool real = fakeName.empty();
	std::string cfg = fmt("np=%d comm=%s(%d) hosts=%u names=", wsize, cname.c_str(), size, n);
	for (int i = 0; i < wsize; i++) cfg += fmt("%d", host[i]);
	cfg += fmt(" lengths=");
	for (unsigned i = 0; i < n; i++) cfg += fmt("%zu ", hosts[i].size());
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	int mine = real ? 0 : host[wrank];
	std::vector<int> all(size);
	PMPI_Allgather(&mine, 1, MPI_INT, &all[0], 1, MPI_INT, comm);
	int want = 0;
	for (int i = 0; i < rank; i++) want += all[i] == mine;
	Balance balance;
	int got = AG::nodeLocalRank(comm);
	int gotC = asagi_node_local_rank(comm);
	if (got != want) report.fail("local-rank", fmt("nodeLocalRank=%d, expected %d", got, want));
	if (gotC != got) report.fail("local-rank-c", fmt("asagi_node_local_rank=%d, C++ %d", gotC, got));
	balance.check("nodeLocalRank");
	fakeName.clear();
	PMPI_Comm_free(&comm);
	heartbeat++;
	report.observe("local_ranks");
	report.eval(size > 1 && n > 1 ? cfg : "");
	if (wrank == 0) report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C21: the MPI related functions of the C and Fortran interfaces
// ---------------------------------------------------------------------------
extern "C" {
int f90asagi_grid_create(asagi_type type);
void f90asagi_grid_set_comm(int grid_id, int comm);
void f90asagi_grid_set_threads(int grid_id, int threads);
void f90asagi_grid_set_param(int grid_id, const char* name, const char* value, int level);
asagi_error f90asagi_grid_open(int grid_id, const char* filename, int level);
double f90asagi_grid_get_double(int grid_id, double* pos, int level);
void f90asagi_grid_close(int grid_id);
asagi_error f90asagi_start_comm_thread(int sched_cpu, int comm);
void f90asagi_stop_comm_thread();
int f90asagi_node_local_rank(int comm);
}

static void modeLang(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/a%llu.nc", (unsigned long long) cs), 500);
	VarSpec v = randVar(r, BASIC, AG::DOUBLE);
	v.fullRange = false;
	f.vars.push_back(v);
	int lang = r.below(2); // 0: C, 1: Fortran
	bool thread = false;
#ifndef THREADSAFE_MPI
	thread = r.chance(50);
#endif
	Params p = randBlocks(r, f);
	p["GRID"] = r.chance(60) ? "FULL" : "CACHE";
	p["MPI_COMMUNICATION"] = thread ? "THREAD" : "WINDOW";
	bool noComm = r.chance(20); // the default communicator
	std::string cname;
	MPI_Comm comm = pickComm(r, cname, !thread);
	if (noComm) { PMPI_Comm_free(&comm); PMPI_Comm_dup(MPI_COMM_WORLD, &comm); cname = "default"; }
	int rank, size;
	PMPI_Comm_rank(comm, &rank);
	PMPI_Comm_size(comm, &size);
	Topo topo = randTopo(r, 2, 2);
	setTopology(topo.node);
	std::string cfg = fmt("%s np=%d comm=%s(%d) ", lang ? "Fortran" : "C", wsize, cname.c_str(), size) + describe(f) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	if (wrank == 0) writeFile(f);
	pbarrier(MPI_COMM_WORLD);
	fakeName = fmt("host%d", wrank % 2);
	int want = AG::nodeLocalRank(comm);
	int got = lang ? f90asagi_node_local_rank(PMPI_Comm_c2f(comm)) : asagi_node_local_rank(comm);
	if (got != want) report.fail("lang-local-rank", fmt("%d, C++ interface: %d", got, want));
	fakeName.clear();
	Balance balance;
	if (thread) {
		asagi_error e = lang ? f90asagi_start_comm_thread(wsize * 100, PMPI_Comm_c2f(MPI_COMM_WORLD)) : asagi_start_comm_thread(wsize * 100, MPI_COMM_WORLD);
		if ((int) e != 0) fatal("lang-start", errName((AG::Error) e));
	}
	readLogClear();
	readLogEnable(true);
	asagi_grid* h = 0;
	int id = 0;
	if (lang) {
		id = f90asagi_grid_create(AG::DOUBLE);
		if (!noComm) f90asagi_grid_set_comm(id, PMPI_Comm_c2f(comm));
		f90asagi_grid_set_threads(id, topo.threads);
		for (Params::iterator i = p.begin(); i != p.end(); ++i) f90asagi_grid_set_param(id, i->first.c_str(), i->second.c_str(), 0);
	} else {
		h = asagi_grid_create(AG::DOUBLE);
		if (!noComm) asagi_grid_set_comm(h, comm);
		asagi_grid_set_threads(h, topo.threads);
		for (Params::iterator i = p.begin(); i != p.end(); ++i) asagi_grid_set_param(h, i->first.c_str(), i->second.c_str(), 0);
	}
	Gate gate(topo.threads);
	std::string bad;
	std::mutex bm;
	std::vector<unsigned> cover(f.cells(), 0);
	Team::run(topo.threads, [&](unsigned t) {
		asagi_error e = lang ? f90asagi_grid_open(id, f.path.c_str(), 0) : asagi_grid_open(h, f.path.c_str(), 0);
		if ((int) e != 0) fatal("lang-open", errName((AG::Error) e));
		heartbeat++;
		gate.wait();
		if (t == 0 && p["GRID"] == "FULL") {
			std::vector<ReadEvent> log = readLog();
			for (size_t k = 0; k < log.size(); k++) {
				size_t n = 1, idx[MAXD];
				for (unsigned d = 0; d < f.nd(); d++) n *= log[k].count[d];
				for (size_t c = 0; c < n; c++) {
					size_t x = c;
					for (unsigned d = 0; d < f.nd(); d++) {
						size_t cnt = log[k].count[f.nd() - d - 1];
						idx[d] = log[k].start[f.nd() - d - 1] + x % cnt;
						x /= cnt;
					}
					cover[f.linear(idx)]++;
				}
			}
			pbarrier(comm);
			PMPI_Allreduce(MPI_IN_PLACE, &cover[0], f.cells(), MPI_UNSIGNED, MPI_SUM, comm);
			// exactly once over the communicator that was set
			// (without communicator every process has its own copy)
			for (size_t c = 0; c < f.cells(); c++)
				if (cover[c] != (noComm ? (unsigned) size : 1u)) { report.fail("lang-comm", fmt("cell %zu was read %u times by the processes of the communicator", c, cover[c])); break; }
			report.observe("cells_covered", f.cells());
		}
		gate.wait();
		Rng q(mix(cs + wrank * 977 + t * 31));
		for (int i = 0; i < 60; i++) {
			size_t cell = q.below(f.cells()), idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(cell, idx);
			jitter(q, f, idx, pos);
			double x = lang ? f90asagi_grid_get_double(id, pos, 0) : asagi_grid_get_double(h, pos, 0), e2 = expectAs<double>(v, cell);
			heartbeat++;
			if (x != e2) {
				std::lock_guard<std::mutex> l(bm);
				bad = fmt("thread %u cell %zu: %.17g expected %.17g", t, cell, x, e2);
			}
		}
	});
	readLogEnable(false);
	if (!bad.empty()) report.fail("lang-value", bad);
	if (lang) f90asagi_grid_close(id); else asagi_grid_close(h);
	if (thread) { if (lang) f90asagi_stop_comm_thread(); else asagi_stop_comm_thread(); }
	balance.check("the C/Fortran interface");
	pbarrier(MPI_COMM_WORLD);
	if (wrank == 0) unlink(f.path.c_str());
	PMPI_Comm_free(&comm);
	heartbeat++;
	report.observe(lang ? "fortran_grids" : "c_grids");
	report.observe("values_compared", 60 * topo.threads);
	report.eval(size > 1 ? cfg : "");
	if (wrank == 0) report.sample(cfg);
}

#ifdef VERIF_INTERNAL
#include "mpi_internal.h"
#endif

int main(int argc, char** argv)
{
	int prov;
	PMPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &prov);
	PMPI_Comm_rank(MPI_COMM_WORLD, &wrank);
	PMPI_Comm_size(MPI_COMM_WORLD, &wsize);
	if (prov != MPI_THREAD_MULTIPLE) { fprintf(stderr, "HARNESS-ERROR no MPI_THREAD_MULTIPLE\n"); return 96; }
	Args a(argc, argv);
	report.setOut(a.str("out", "") + fmt(".%d.json", wrank));
	pthread_t wd;
	pthread_create(&wd, 0, &watchdog, 0);
	std::string mode = a.str("mode", "full");
	seedBase = a.num("seed", 1);
	long first = a.num("first", 0), n = a.num("n", 10);
	uint64_t ncOverlap = 0;
	for (long i = first; i < first + n; i++) {
		uint64_t cs = a.kv.count("case") ? strtoull(a.kv["case"].c_str(), 0, 10) : (mix(seedBase * 1000003 + i) & 0xffffffffffull) / 40 * 40 + i % 40;
		bool thread = false;
#ifndef THREADSAFE_MPI
		thread = mode == "fullth" || mode == "cacheth" || mode == "tinyth";
#endif
		if (mode == "full" || mode == "fullth") modeGrid(cs, false, thread);
		else if (mode == "cache" || mode == "cacheth") modeGrid(cs, true, thread);
		else if (mode == "tiny" || mode == "tinyth") modeGrid(cs, (cs >> 8) % 4 != 0, thread, true);
		else if (mode == "life") modeLife(cs);
		else if (mode == "conc") modeConc(cs);
		else if (mode == "localrank") modeLocalRank(cs);
		else if (mode == "lang") modeLang(cs);
#ifdef VERIF_INTERNAL
		else if (mode == "comm") modeComm(cs);
#ifdef USE_MPI3
		else if (mode == "mutex") modeMutex(cs);
#endif
#endif
#ifndef THREADSAFE_MPI
		else if (mode == "nothread") modeNoThread(cs);
#endif
		else { fprintf(stderr, "HARNESS-ERROR unknown mode\n"); return 96; }
#ifdef THREADSAFE_MPI
		static uint64_t seenOverlap = 0, seenCalls = 0;
		if (mpiOverlap != seenOverlap) {
			report.fail(fmt("mpi-overlap:%s+%s", overlapName[0].load(), overlapName[1].load()), fmt("case %llu: %lu MPI calls made while another thread was inside MPI (THREADSAFE_MPI build), e.g. %s during %s", (unsigned long long) cs, (unsigned long) (mpiOverlap - seenOverlap), overlapName[0].load(), overlapName[1].load()));
			seenOverlap = mpiOverlap;
		}
		report.observe("mpi_calls_watched", mpiCalls - seenCalls);
		seenCalls = mpiCalls;
#endif
		if (libraryOverlap() != ncOverlap) {
			report.fail("netcdf-overlap", "netCDF calls overlapped");
			ncOverlap = libraryOverlap();
		}
		if (a.kv.count("case")) break;
	}
	report.write();
	pbarrier(MPI_COMM_WORLD);
	PMPI_Finalize();
	return 0;
}
