// Monitors on the synchronisation primitives: barrier/broadcast (C10), execute once
// (C11), registration of threads and NUMA domains (C12).
#include <atomic>
#include <memory>

#include "model.h"

#include "allocator/default.h"
#include "numa/numa.h"
#include "numa/numacomm.h"
#include "threads/once.h"
#include "threads/sync.h"

using namespace vf;

extern "C" void verif_log_warning(const char*) {}

/** Atomic without ordering: the monitor must not synchronise the threads it watches */
template<typename T> struct Rel
{
	std::atomic<T> v;
	Rel(T x = 0) : v(x) {}
	T add(T d) { return v.fetch_add(d, std::memory_order_relaxed); }
	void operator++(int) { add(1); }
	operator T() const { return v.load(std::memory_order_relaxed); }
	void operator=(T x) { v.store(x, std::memory_order_relaxed); }
};

// Per-thread failure slots keep the monitor out of the way of the threads
struct Slots
{
	std::vector<std::string> key, det;
	Slots(unsigned n) : key(n), det(n) {}
	void fail(unsigned t, const char* k, const std::string& d) { if (key[t].empty()) { key[t] = k; det[t] = d; } }
	bool any(unsigned t) const { return !key[t].empty(); }
	void flush() { for (size_t i = 0; i < key.size(); i++) if (!key[i].empty()) report.fail(key[i], det[i]); }
};

static void jitter(Rng& r)
{
	int k = r.below(12);
	if (k == 0) { struct timespec ts = { 0, (long) r.below(150000) }; nanosleep(&ts, 0); }
	else if (k < 3) sched_yield();
}

// ---------------------------------------------------------------------------
static void modeBarrier(uint64_t cs)
{
	Rng r(cs);
	unsigned n = 1 + r.below(r.chance(20) ? 16 : 7);
	unsigned rounds = 30 + r.below(60);
	bool spur = r.chance(60);
	int op = r.below(4); // what each round does: 0 barrier, 1 start/wait/end, 2 with "last" threads, 3 broadcasts; else mixed
	bool mixed = r.chance(50);
	report.context(fmt("case=%llu threads=%u rounds=%u op=%d mixed=%d spurious=%d", (unsigned long long) cs, n, rounds, op, mixed, spur));
	// the plan is common to all threads
	std::vector<int> plan(rounds);
	std::vector<uint64_t> lastMask(rounds), rootOf(rounds);
	for (unsigned i = 0; i < rounds; i++) {
		plan[i] = mixed ? (int) r.below(4) : op;
		lastMask[i] = r.next() & r.next();
		rootOf[i] = r.below(n);
	}
	uint64_t qs = r.next();
	perturb(r.chance(60) ? r.range(1, 30) : 0, r.below(80), qs);
	spurious(spur ? r.range(5, 50) : 0, qs);
	threads::Sync sync;
	std::vector<Rel<unsigned> > entered(rounds), notLastLeft(rounds), arrived(rounds);
	for (unsigned i = 0; i < rounds; i++) { entered[i] = 0; notLastLeft[i] = 0; arrived[i] = 0; }
	Rel<int> inside(0);
	Rel<uint64_t> crossings(0), bcasts(0), sections(0);
	Slots bad(n);
	// ordinary memory handed over by the barrier (races on it are seen by ThreadSanitizer)
	std::vector<uint64_t> plain(rounds * n, 0);
	uint64_t guarded = 0;
	Team::run(n, [&](unsigned t) {
		Rng q(qs + t);
		for (unsigned i = 0; i < rounds; i++) {
			jitter(q);
			plain[i * n + t] = mix(i * n + t);
			entered[i]++;
			uint64_t value = 0;
			bool ok = true;
			switch (plan[i]) {
			case 0:
				ok = sync.barrier(n);
				break;
			case 1:
			case 2: {
				bool last = plan[i] == 2 && ((lastMask[i] >> t) & 1);
				ok = sync.startBarrier();
				if (inside.add(1) != 0) bad.fail(t, "exclusion-before", fmt("round %u: two threads between start and wait", i));
				guarded++;
				unsigned w = sync.waiting(), a = arrived[i].add(1);
				if (w != a) bad.fail(t, "waiting", fmt("round %u: waiting()=%u, %u threads have arrived", i, w, a));
				if (q.chance(30)) sched_yield();
				inside.add(-1);
				ok = ok && sync.waitBarrier(n, last);
				if (inside.add(1) != 0) bad.fail(t, "exclusion-after", fmt("round %u: two threads between wait and end", i));
				guarded++;
				if (last) {
					unsigned total = 0;
					for (unsigned k = 0; k < n; k++) total += !((lastMask[i] >> k) & 1);
					unsigned left = notLastLeft[i];
					if (left != total) bad.fail(t, "last-order", fmt("round %u: a last thread left after %u of %u other threads", i, left, total));
				} else
					notLastLeft[i]++;
				sections++;
				inside.add(-1);
				ok = ok && sync.endBarrier();
				break;
			}
			case 3: {
				unsigned root = rootOf[i];
				uint64_t sent = mix(qs + i);
				{
					// the root's variable dies right after the call
					std::unique_ptr<uint64_t> v(new uint64_t(t == root ? sent : ~0ull));
					ok = sync.broadcast(*v, n, t, root);
					value = *v;
					*v = 0xdeaddeaddeaddeadull;
				}
				if (ok && value != sent) bad.fail(t, "broadcast", fmt("round %u: received %llx instead of the root's %llx", i, (unsigned long long) value, (unsigned long long) sent));
				bcasts++;
				break;
			}
			}
			if (!ok) bad.fail(t, "sync-error", fmt("round %u: a synchronisation function failed", i));
			unsigned e = entered[i];
			if (e != n) bad.fail(t, "early-release", fmt("round %u: thread %u left while only %u of %u threads had entered", i, t, e, n));
			unsigned o = q.below(n);
			if (plain[i * n + o] != mix(i * n + o)) bad.fail(t, "not-visible", fmt("round %u: thread %u does not see what thread %u wrote before the barrier", i, t, o));
			// nobody can be more than one round ahead
			if (i + 1 < rounds && entered[i + 1] > 0 && i + 2 < rounds && entered[i + 2] > 0)
				bad.fail(t, "overtaking", fmt("a thread entered round %u before thread %u left round %u", i + 2, t, i));
			crossings++;
		}
	});
	perturb(0, 0, 0);
	spurious(0, 0);
	if (guarded != 2 * (uint64_t) sections) bad.fail(0, "exclusion-lost", fmt("%lu of %lu updates inside the exclusive sections survived", (unsigned long) guarded, 2 * (unsigned long) sections));
	bad.flush();
	report.observe("crossings", crossings);
	report.observe("broadcasts", bcasts);
	report.observe("exclusive_sections", sections);
	report.observe("spurious_wakeups", 0);
	report.eval(n > 1 ? fmt("n=%u r=%u op=%d%d spur=%d %llx", n, rounds, op, mixed, spur, (unsigned long long) cs) : "");
	report.sample(fmt("threads=%u rounds=%u op=%d mixed=%d spurious=%d", n, rounds, op, mixed, spur));
}

// ---------------------------------------------------------------------------
struct OnceObj
{
	Rel<int> calls, done;
	unsigned usec;
	uint64_t payload[8];
	OnceObj() : calls(0), done(0), usec(0) { memset(payload, 0, sizeof payload); }
	void run()
	{
		calls++;
		for (int i = 0; i < 8; i++) {
			payload[i] = i + 1;
			if (usec && i == 4) { struct timespec ts = { 0, (long) usec * 1000 }; nanosleep(&ts, 0); }
		}
		done = 1;
	}
};

static void modeOnce(uint64_t cs)
{
	Rng r(cs);
	unsigned n = 2 + r.below(7), objs = 20 + r.below(40);
	std::vector<OnceObj> o(objs);
	std::vector<threads::Once> once(objs);
	for (unsigned i = 0; i < objs; i++) o[i].usec = r.chance(40) ? r.below(200) : 0;
	uint64_t qs = r.next();
	report.context(fmt("case=%llu threads=%u objects=%u", (unsigned long long) cs, n, objs));
	perturb(r.chance(60) ? r.range(1, 40) : 0, r.below(100), qs);
	Slots bad(n);
	Rel<uint64_t> calls(0), contended(0);
	std::vector<Rel<int> > racing(objs);
	for (unsigned i = 0; i < objs; i++) racing[i] = 0;
	Gate gate(n);
	Team::run(n, [&](unsigned t) {
		Rng q(qs + t);
		for (unsigned i = 0; i < objs; i++) {
			if (i % 8 == 0) gate.wait();
			if (racing[i].add(1) > 0 && !o[i].done) contended++;
			once[i].saveExec(o[i], &OnceObj::run);
			calls++;
			if (!o[i].done) bad.fail(t, "returned-before-done", fmt("object %u: saveExec returned before the function was complete", i));
			for (int k = 0; k < 8; k++)
				if (o[i].payload[k] != (uint64_t) k + 1) bad.fail(t, "payload", fmt("object %u: initialisation not visible", i));
			if (q.chance(30)) once[q.below(i + 1)].saveExec(o[0], &OnceObj::run); // an executed one: no effect
		}
	});
	perturb(0, 0, 0);
	for (unsigned i = 0; i < objs; i++)
		if (o[i].calls != 1) bad.fail(0, "count", fmt("object %u: function executed %d times by %u threads", i, (int) o[i].calls, n));
	bad.flush();
	report.observe("save_exec_calls", calls);
	report.observe("contended_calls", contended);
	report.eval(fmt("n=%u o=%u %llx", n, objs, (unsigned long long) cs));
	report.sample(fmt("threads=%u objects=%u", n, objs));
}

// ---------------------------------------------------------------------------
static void modeNuma(uint64_t cs)
{
	Rng r(cs);
	unsigned n = 1 + r.below(r.chance(15) ? 24 : 8);
	unsigned nodes = 1 + r.below(6);
	std::vector<int> topo;
	for (unsigned i = 0; i < n; i++) topo.push_back(r.below(nodes) * (r.chance(50) ? 1 : 3));
	for (unsigned i = 0; i < n; i++) if (r.chance(50) && i) topo[i] = topo[r.below(i)];
	setTopology(topo);
	bool detect = r.chance(85);
	std::string ts;
	for (unsigned i = 0; i < n; i++) ts += fmt("%d", topo[i]);
	report.context(fmt("case=%llu threads=%u nodes=%s detect=%d", (unsigned long long) cs, n, ts.c_str(), detect));
	uint64_t qs = r.next();
	perturb(r.chance(60) ? r.range(1, 30) : 0, r.below(80), qs);
	spurious(r.chance(50) ? 25 : 0, qs);
	numa::Numa numa;
	if (n > 1 || r.chance(50)) numa.setThreads(n);
	unsigned again = r.below(3);
	struct Id { unsigned thread, domain; bool master; unsigned total; asagi::Grid::Error err; bool stable; };
	std::vector<Id> id(n);
	std::vector<numa::NumaComm*> comm(n, (numa::NumaComm*) 0), copy(n, (numa::NumaComm*) 0);
	std::vector<uint32_t*> mem(n, (uint32_t*) 0);
	unsigned long size = 1 + r.below(50);
	unsigned bdom = r.next() % 64;
	Rel<uint64_t> bc(0);
	Slots bad(n);
	Team::run(n, [&](unsigned t) {
		bool m = r.s & 1; // arbitrary initial value
		Id& i = id[t];
		i.err = numa.registerThread(m, detect);
		i.master = m;
		i.thread = numa.threadId();
		i.domain = numa.domainId();
		i.total = numa.totalDomains();
		i.stable = true;
		for (unsigned k = 0; k < again; k++) {
			bool m2 = !m;
			if (numa.registerThread(m2, detect) != asagi::Grid::SUCCESS || m2 != m || numa.threadId() != i.thread || numa.domainId() != i.domain) i.stable = false;
		}
		uint64_t v = t * 1000 + 7;
		unsigned root = bdom % n;
		uint64_t mine = mix(i.thread);
		if (numa.broadcast(mine, root) != asagi::Grid::SUCCESS || mine != mix(root)) bad.fail(t, "numa-broadcast", "broadcast over all threads delivered another value");
		(void) v;
		if (i.master) {
			comm[t] = numa.createComm();
			if (!comm[t]) { bad.fail(t, "createComm", "createComm returned 0"); return; }
			copy[t] = comm[t]->copy();
			if (comm[t]->totalDomains() != i.total || comm[t]->domainId() != i.domain || comm[t]->threadId() != i.thread || comm[t]->totalThreads() != n)
				bad.fail(t, "comm-ids", "the communicator reports other ids");
			for (int k = 0; k < 5; k++) {
				unsigned rd = (bdom + k) % i.total;
				uint64_t x = i.domain == rd ? mix(rd + k) : 0;
				numa::NumaComm* c = k % 2 ? copy[t] : comm[t];
				if (c->broadcast(x, rd) != asagi::Grid::SUCCESS || x != mix(rd + k)) bad.fail(t, "domain-broadcast", fmt("broadcast from domain %u", rd));
				bc++;
			}
			uint32_t* p = 0;
			asagi::Grid::Error e = comm[t]->allocate<allocator::Default>(size, p);
			if (e != asagi::Grid::SUCCESS || !p) bad.fail(t, "allocate", "allocate failed");
			mem[t] = p;
			if (p) for (unsigned long k = 0; k < size; k++) p[k] = i.domain * 1000 + k;
		}
		numa.barrier();
		if (i.master && mem[t])
			for (unsigned long k = 0; k < size; k++)
				if (mem[t][k] != i.domain * 1000 + k) bad.fail(t, "allocate-overlap", "the memory of two domains overlaps");
		numa.barrier();
	});
	perturb(0, 0, 0);
	spurious(0, 0);
	bad.flush();
	std::set<int> want;
	for (unsigned t = 0; t < n; t++) want.insert(detect ? topo[t] : 0);
	std::set<unsigned> tids;
	std::map<unsigned, unsigned> masters;
	std::map<unsigned, int> domNode;
	std::map<int, unsigned> nodeDom;
	for (unsigned t = 0; t < n; t++) {
		int node = detect ? topo[t] : 0;
		if (id[t].err != asagi::Grid::SUCCESS) report.fail("register", fmt("registerThread returned %d", (int) id[t].err));
		if (!tids.insert(id[t].thread).second || id[t].thread >= n) report.fail("thread-id", fmt("thread id %u is not unique in 0..%u", id[t].thread, n - 1));
		if (id[t].total != want.size()) report.fail("domains", fmt("%u domains reported right after registration, %zu exist", id[t].total, want.size()));
		if (id[t].domain >= want.size()) report.fail("domain-id", fmt("domain id %u of %zu", id[t].domain, want.size()));
		if (domNode.count(id[t].domain) && domNode[id[t].domain] != node) report.fail("domain-map", "threads of different nodes share a domain");
		if (nodeDom.count(node) && nodeDom[node] != id[t].domain) report.fail("domain-map", "threads of one node are in different domains");
		domNode[id[t].domain] = node;
		nodeDom[node] = id[t].domain;
		masters[id[t].domain] += id[t].master;
		if (!id[t].stable) report.fail("re-register", "registering again changed an id or the master");
	}
	for (std::map<unsigned, unsigned>::iterator i = masters.begin(); i != masters.end(); ++i)
		if (i->second != 1) report.fail("masters", fmt("domain %u has %u masters", i->first, i->second));
	uint32_t* base = 0;
	numa::NumaComm *c0 = 0, *k0 = 0;
	for (unsigned t = 0; t < n; t++) if (id[t].master && id[t].domain == 0) { base = mem[t]; c0 = comm[t]; k0 = copy[t]; }
	for (unsigned t = 0; t < n; t++)
		if (id[t].master) {
			if (mem[t] != base + size * id[t].domain) report.fail("allocate-layout", fmt("memory of domain %u is not at its place", id[t].domain));
			if (comm[t] != c0 || copy[t] != k0) report.fail("comm-shared", "the masters got different communicators");
		}
	if (c0 == k0 && c0) report.fail("comm-copy", "a copy is the same communicator");
	if (c0) { c0->free<allocator::Default>(base); delete c0; if (k0 != c0) delete k0; }
	report.observe("registrations", (1 + again) * (uint64_t) n);
	report.observe("domain_broadcasts", bc);
	report.observe(fmt("domains_%zu", want.size()));
	report.eval(want.size() > 1 ? "nodes=" + ts + fmt(" d=%d a=%u", detect, again) : "");
	report.sample("nodes=" + ts + fmt(" detect=%d", detect));
}

int main(int argc, char** argv)
{
	Args a(argc, argv);
	std::string mode = a.str("mode", "barrier");
	uint64_t seed = a.num("seed", 1);
	long first = a.num("first", 0), n = a.num("n", 10);
	for (long i = first; i < first + n; i++) {
		uint64_t cs = a.kv.count("case") ? strtoull(a.kv["case"].c_str(), 0, 10) : (mix(seed * 1000003 + i) & 0xffffffffffull);
		if (mode == "barrier") modeBarrier(cs);
		else if (mode == "once") modeOnce(cs);
		else if (mode == "numa") modeNuma(cs);
		else { fprintf(stderr, "HARNESS-ERROR unknown mode\n"); return 96; }
		if (a.kv.count("case")) break;
	}
	report.observe("spurious_wakeups", spuriousCount());
	report.observe("injected_delays", perturbCount());
	report.write();
	return 0;
}
