// Workloads on the internal classes for MPI (part of h_mpi.cpp, see h_mpint.cpp)
// ---------------------------------------------------------------------------
// C19: communication thread
// ---------------------------------------------------------------------------
struct Sink : public mpi::Receiver
{
	pthread_spinlock_t l;
	std::vector<std::pair<int, unsigned long> > got;
	std::atomic<bool> gone;
	std::atomic<uint64_t> late;
	unsigned delay;
	Sink() : gone(false), late(0), delay(0) { pthread_spin_init(&l, 0); }
	void recv(int sender, mpi::message_t data)
	{
		if (gone) late++;
		if (delay) { struct timespec ts = { 0, (long) delay * 1000 }; nanosleep(&ts, 0); }
		pthread_spin_lock(&l);
		got.push_back(std::make_pair(sender, data));
		pthread_spin_unlock(&l);
	}
};

static void modeComm(uint64_t cs)
{
	Rng r(cs);
	Balance balance0;
	int ncpu = std::thread::hardware_concurrency();
	int cpu = r.chance(20) ? 0 : (r.chance(20) ? -1 : r.range(-ncpu - 3, ncpu + 3));
	unsigned K = 1 + r.below(4), T = 1 + r.below(3), M = 5 + r.below(40);
	std::string cfg = fmt("np=%d cpu=%d receivers=%u threads=%u messages=%u", wsize, cpu, K, T, M);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	uint64_t ls = mix(cs * 17 + wrank);
	perturb(r.chance(50) ? r.range(1, 30) : 0, r.range(0, 300), ls);
	network.start(ls % 100 < 60 ? 5 + ls / 100 % 60 : 0, 50 + ls / 10000 % 4000, ls);

	// not started yet
	if (r.chance(30)) {
		Sink s;
		int tag = -7;
		AG::Error e = mpi::CommThread::commThread.registerReceiver(MPI_COMM_WORLD, s, tag);
		if (e != AG::NOT_INITIALIZED) report.fail("register-before-start", fmt("registerReceiver returned %s before startCommThread", errName(e)));
	}
	affinityClear();
	AG::Error e = r.chance(50) ? AG::startCommThread(cpu) : asagi_start_comm_thread(cpu, MPI_COMM_WORLD);
	if (e != AG::SUCCESS) fatal("start", errName(e));
	std::vector<std::vector<int> > aff = affinityLog();
	// negative numbers select the last, second last, ... CPU; invalid numbers do not pin
	int want = cpu >= 0 ? (cpu < ncpu ? cpu : -1) : (-cpu <= ncpu ? ncpu + cpu : -1);
	report.observe(want < 0 ? "unpinned_starts" : "pinned_starts");
	if (want < 0 && !aff.empty()) report.fail("pinned-invalid", fmt("CPU %d of %d is invalid, but the thread was pinned", cpu, ncpu));
	if (want >= 0 && (aff.size() != 1 || aff[0].size() != 1 || aff[0][0] != want))
		report.fail("pinning", fmt("CPU %d of %d: pinned to %s, expected %d", cpu, ncpu, aff.empty() ? "nothing" : (aff[0].empty() ? "no CPU" : fmt("%d", aff[0][0]).c_str()), want));
	if (r.chance(40)) {
		e = AG::startCommThread(cpu);
		if (e != AG::ALREADY_INITIALIZED) fatal("start-twice", errName(e));
	}
	Balance balance;

	// a long life: many receivers came and went before, some are still there
	std::vector<Sink> early(1 + r.below(3));
	std::vector<int> earlyTag(early.size());
	bool aged = r.chance(1);
#if defined(VERIF_SAN_TSAN)
	aged = false; // too many events in one function for the runtime of the sanitizer
#endif
	if (aged) {
		for (size_t i = 0; i < early.size(); i++) if (mpi::CommThread::commThread.registerReceiver(MPI_COMM_WORLD, early[i], earlyTag[i]) != AG::SUCCESS) fatal("register", "an early receiver");
		// alone, every process another number (most of them close to the largest tag)
		static const int ages[] = { 0, 100, 32755, 32762, 32766, 32768, 40000, 70000 };
		int age = ages[ls % 8];
		// (the others accept the tags of the process that is ahead)
		if (wrank != (int) (cs / 7 % wsize)) age %= 257;
		Sink s;
		size_t sentAlone = 0;
		network.end();
		for (int i = 0; i < age; i++) {
			int tag = -1;
			AG::Error e = mpi::CommThread::commThread.registerReceiver(MPI_COMM_SELF, s, tag);
			if (e != AG::SUCCESS) { report.fail("aged", fmt("receiver %d is not accepted: %s", i, errName(e))); break; }
			if (i % 997 == 0 || tag < 3 || tag > 32700) { mpi::CommThread::commThread.send(tag, 0, i); sentAlone++; }
			mpi::CommThread::commThread.unregisterReceiver(tag);
			heartbeat++;
		}
		if (s.got.size() != sentAlone) report.fail("aged", fmt("%zu of %zu messages to short-lived receivers arrived", s.got.size(), sentAlone));
		report.observe("earlier_receivers", age);
		network.start(ls % 100 < 60 ? 5 + ls / 100 % 60 : 0, 50 + ls / 10000 % 4000, ls);
		pbarrier(MPI_COMM_WORLD);
	}

	std::vector<MPI_Comm> comm(K);
	std::vector<Sink> sink(K);
	std::vector<int> tag(K), rank(K), size(K);
	std::vector<std::string> names(K);
	for (unsigned k = 0; k < K; k++) {
		comm[k] = pickComm(r, names[k]);
		sink[k].delay = r.chance(20) ? r.below(200) : 0;
		if (r.chance(50)) {
			// some processes have no part in this receiver: their number of registered receivers differs
			bool in = true;
			std::vector<char> member(wsize);
			for (int w = 0; w < wsize; w++) member[w] = r.chance(65);
			in = member[wrank];
			MPI_Comm c;
			PMPI_Comm_split(comm[k], in ? 0 : MPI_UNDEFINED, 0, &c);
			PMPI_Comm_free(&comm[k]);
			comm[k] = c;
			if (!in) { rank[k] = -1; size[k] = 0; report.observe("not_members"); continue; }
		}
		PMPI_Comm_rank(comm[k], &rank[k]);
		PMPI_Comm_size(comm[k], &size[k]);
	}
	// registered by one thread while others already use earlier receivers
	std::vector<std::atomic<int> > ready(K);
	for (unsigned k = 0; k < K; k++) ready[k] = 0;
	std::vector<std::vector<std::vector<unsigned> > > sent(T, std::vector<std::vector<unsigned> >(K));
	uint64_t total = 0;
	std::mutex tm;
	Team::run(T + 1, [&](unsigned t) {
		if (t == T) {
			for (unsigned k = 0; k < K; k++) {
				if (comm[k] == MPI_COMM_NULL) { ready[k].store(1, std::memory_order_release); continue; }
				AG::Error e = mpi::CommThread::commThread.registerReceiver(comm[k], sink[k], tag[k]);
				if (e != AG::SUCCESS) fatal("register", errName(e));
				heartbeat++;
				ready[k].store(1, std::memory_order_release);
			}
			return;
		}
		Rng q(mix(cs + wrank * 31 + t));
		uint64_t n = 0;
		for (unsigned k = 0; k < K; k++) {
			sent[t][k].assign(size[k], 0);
			// no synchronisation but the return of registerReceiver
			while (!ready[k].load(std::memory_order_acquire)) { struct timespec ts = { 0, 50000 }; nanosleep(&ts, 0); }
			for (unsigned i = 0; i < M; i++) {
				unsigned kk = q.below(k + 1);
				if (!size[kk]) continue;
				int to = q.below(size[kk]);
				// receiver, thread and sequence number in the message
				mpi::message_t m = ((unsigned long) kk << 48) | ((unsigned long) t << 40) | ((unsigned long) to << 32) | sent[t][kk][to]++;
				mpi::CommThread::commThread.send(tag[kk], to, m);
				heartbeat++;
				n++;
			}
		}
		std::lock_guard<std::mutex> l(tm);
		total += n;
	});
	std::set<int> tags;
	unsigned members = 0;
	if (aged) {
		// the oldest receivers still get their messages
		for (size_t i = 0; i < early.size(); i++) for (int d = 0; d < wsize; d++) mpi::CommThread::commThread.send(earlyTag[i], d, i);
		pbarrier(MPI_COMM_WORLD);
		for (size_t i = 0; i < early.size(); i++) {
			mpi::CommThread::commThread.unregisterReceiver(earlyTag[i]);
			std::vector<int> from(wsize);
			bool good = early[i].got.size() == (size_t) wsize;
			for (auto& m : early[i].got) if (m.first >= 0 && m.first < wsize && !from[m.first]++ && m.second == i); else good = false;
			if (!good) report.fail("aged", fmt("an old receiver got %zu of %d messages", early[i].got.size(), wsize));
		}
	}
	bool patient = r.chance(40);
	std::vector<uint64_t> dueAll(K);
	for (unsigned k = 0; k < K; k++) if (size[k]) { tags.insert(tag[k]); members++; }
	if (tags.size() != members) report.fail("tag-reuse", "two receivers got the same tag");
	for (unsigned k = 0; k < K; k++) {
		if (!size[k]) continue;
		// tags agree within the communicator
		int lo, hi;
		PMPI_Allreduce(&tag[k], &lo, 1, MPI_INT, MPI_MIN, comm[k]);
		PMPI_Allreduce(&tag[k], &hi, 1, MPI_INT, MPI_MAX, comm[k]);
		if (lo != hi) report.fail("tag-differs", fmt("receiver %u has tags %d..%d", k, lo, hi));
		// how many messages must arrive here, from each (rank, thread)
		std::vector<unsigned> out(size[k] * T), in(size[k] * T);
		for (int d = 0; d < size[k]; d++)
			for (unsigned t = 0; t < T; t++) out[d * T + t] = sent[t][k].empty() ? 0 : sent[t][k][d];
		PMPI_Alltoall(&out[0], T, MPI_UNSIGNED, &in[0], T, MPI_UNSIGNED, comm[k]);
		uint64_t due = 0;
		for (size_t i = 0; i < in.size(); i++) due += in[i];
		dueAll[k] = due;
		if (!patient) continue;
		// everything sent has to arrive
		for (int w = 0; w < 400; w++) {
			pthread_spin_lock(&sink[k].l);
			size_t have = sink[k].got.size();
			pthread_spin_unlock(&sink[k].l);
			if (have >= due) break;
			struct timespec ts = { 0, 50000000 };
			nanosleep(&ts, 0);
			heartbeat++;
		}
	}
	// all processes are done sending, but nobody waited for the messages
	if (!patient) report.observe("impatient_removals");
	pbarrier(MPI_COMM_WORLD);
	// unregister in random order, then nothing may arrive any more
	std::vector<unsigned> order;
	for (unsigned k = 0; k < K; k++) order.insert(order.begin() + r.below(order.size() + 1), k);
	for (unsigned i = 0; i < K; i++) {
		if (size[order[i]]) mpi::CommThread::commThread.unregisterReceiver(tag[order[i]]);
		heartbeat++;
	}
	// the receivers are forgotten when this returns
	pbarrier(MPI_COMM_WORLD);
	for (unsigned k = 0; k < K; k++) {
		sink[k].gone = true;
		if (comm[k] != MPI_COMM_NULL) PMPI_Comm_free(&comm[k]);
	}
	// everything sent between registration and removal arrived
	for (unsigned k = 0; k < K; k++) {
		if (!size[k]) continue;
		uint64_t due = dueAll[k];
		std::vector<std::pair<int, unsigned long> > got;
		pthread_spin_lock(&sink[k].l);
		got = sink[k].got;
		pthread_spin_unlock(&sink[k].l);
		std::vector<std::vector<unsigned> > next(size[k], std::vector<unsigned>(T, 0));
		for (size_t i = 0; i < got.size(); i++) {
			unsigned kk = got[i].second >> 48, t = (got[i].second >> 40) & 0xff, to = (got[i].second >> 32) & 0xff, seq = got[i].second & 0xffffffffu;
			if (kk != k || (int) to != rank[k]) { report.fail("misdelivered", fmt("message for receiver %u rank %u delivered to receiver %u rank %d", kk, to, k, rank[k])); break; }
			if (got[i].first < 0 || got[i].first >= size[k] || t >= T) { report.fail("sender", fmt("sender rank %d of %d", got[i].first, size[k])); break; }
			// messages of one thread to one receiver stay in order
			if (next[got[i].first][t] != seq) { report.fail("order", fmt("message %u from rank %d thread %u where %u was expected", seq, got[i].first, t, next[got[i].first][t])); break; }
			next[got[i].first][t]++;
		}
		if (got.size() != due) report.fail("lost", fmt("receiver %u: %zu of %lu messages arrived (last warning: %s)", k, got.size(), (unsigned long) due, lastWarning.c_str()));
		report.observe("messages_received", got.size());
	}
	perturb(0, 0, 0);
	network.end();
	// groups of unregistered receivers may be released lazily, but before the end of the communication thread
	if (r.chance(50)) AG::stopCommThread(); else asagi_stop_comm_thread();
	balance0.check("stopCommThread");
	for (unsigned k = 0; k < K; k++) if (sink[k].late) report.fail("late", "message delivered to an unregistered receiver");
	if (warnings.exchange(0)) report.fail("warning", "the library reported: " + lastWarning);
	pbarrier(MPI_COMM_WORLD);
	heartbeat++;
	report.observe("messages_sent", total);
	report.eval(cfg + fmt(" %llu", (unsigned long long) (cs & 0xffff)));
	if (wrank == 0) report.sample(cfg);
}

#ifdef USE_MPI3
// ---------------------------------------------------------------------------
// C18: the lock of directory entries
// ---------------------------------------------------------------------------
static void modeMutex(uint64_t cs)
{
	Rng r(cs);
	unsigned T = 1 + r.below(3), L = 1 + r.below(3);
	// several locks may share a communicator (levels and domains have one each)
	unsigned K = r.chance(50) ? 1 : 2 + r.below(2);
	if (K > 1) L = K * (1 + r.below(2));
	int rounds = 10 + r.below(30);
	Topo topo;
	topo.threads = T;
	for (unsigned i = 0; i < T; i++) topo.node.push_back(r.below(2));
	setTopology(topo.node);
	std::string cname;
	MPI_Comm raw = pickComm(r, cname, true);
	int rank, size;
	PMPI_Comm_rank(raw, &rank);
	PMPI_Comm_size(raw, &size);
	std::string cfg = fmt("np=%d comm=%s(%d) threads=%u locks=%u in %u objects rounds=%d", wsize, cname.c_str(), size, T, L, K, rounds);
	report.context(fmt("rank=%d case=%llu %s", wrank, (unsigned long long) cs, cfg.c_str()));
	// memory shared by the processes of the communicator: who is inside
	int color = rank == 0 ? wrank : 0;
	PMPI_Bcast(&color, 1, MPI_INT, 0, raw);
	std::string shm = scratchDir() + fmt("/mx%llu_%d", (unsigned long long) cs, color);
	size_t bytes = 4096 * ((size * L * 16 + 4095) / 4096);
	if (rank == 0) { int fd = open(shm.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0600); if (ftruncate(fd, bytes)) {} close(fd); }
	pbarrier(raw);
	int fd = open(shm.c_str(), O_RDWR);
	volatile long* sh = (volatile long*) mmap(0, bytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
	close(fd);
	if (size > 1) {
		Balance balance;
		{
			mpi::MPIComm comm;
			if (comm.init(raw) != AG::SUCCESS) fatal("comm", "MPIComm::init failed");
			numa::Numa numa;
			numa.setThreads(T);
			std::vector<long> mem(L * 3, -1);
			std::vector<mpi::Mutex> mutex(K);
			for (unsigned i = 0; i < L; i++) mutex[i % K].initMutexMem(mem[i * 3 + 2]);
			MPI_Win win;
			PMPI_Win_create(&mem[0], mem.size() * sizeof(long), sizeof(long), MPI_INFO_NULL, comm.comm(), &win);
			std::vector<numa::NumaComm*> ncs(1);
			std::mutex winMutex;
			std::atomic<int> started(0);
			uint64_t ls = mix(cs * 7 + wrank);
			perturb(r.chance(60) ? r.range(1, 30) : 0, r.range(0, 200), ls);
			rma.start(ls % 7 < 3 ? 0 : 20 + ls / 8 % 81, ls);
			Gate gate(T);
			std::string bad;
			std::atomic<uint64_t> contended(0), entered(0);
			Team::run(T, [&](unsigned t) {
				bool master;
				numa.registerThread(master, true);
				gate.wait();
				// collective among the domain masters
				numa::NumaComm* nc = master ? numa.createComm() : 0;
				if (master && numa.domainId() == 0) {
					ncs[0] = nc;
					for (unsigned k = 0; k < K; k++) mutex[k].init(comm, win, *nc);
				}
				gate.wait();
				Rng q(mix(cs + wrank * 131 + t));
				for (int i = 0; i < rounds; i++) {
					int target = q.below(size);
					unsigned lock = q.below(L);
					unsigned long off = lock * 3 + 2;
#ifdef THREADSAFE_MPI
					mpi::MPIComm::mpiLock.lock();
#else
					winMutex.lock();
#endif
					MPI_Win_lock(MPI_LOCK_EXCLUSIVE, target, 0, win);
					long old = mutex[lock % K].acquire(target, off);
					MPI_Win_unlock(target, win);
#ifndef THREADSAFE_MPI
					winMutex.unlock();
#endif
					// (the window lock of the process is free while waiting and in the critical section)
					if (old >= 0) { contended++; mutex[lock % K].wait(old); }
					// critical section
					volatile long* s = sh + (target * L + lock) * 2;
					long in = __sync_fetch_and_add(&s[0], 1);
					if (in != 0 && bad.empty()) bad = fmt("%ld other threads hold lock %u of rank %d", in, lock, target);
					long v = s[1];
					if (q.chance(30)) { struct timespec ts = { 0, (long) q.below(300000) }; nanosleep(&ts, 0); } else sched_yield();
					s[1] = v + 1;
					__sync_fetch_and_sub(&s[0], 1);
					entered++;
					heartbeat++;
#ifndef THREADSAFE_MPI
					winMutex.lock();
#endif
					MPI_Win_lock(MPI_LOCK_EXCLUSIVE, target, 0, win);
					mutex[lock % K].release(target, off);
					MPI_Win_unlock(target, win);
#ifdef THREADSAFE_MPI
					mpi::MPIComm::mpiLock.unlock();
#else
					winMutex.unlock();
#endif
				}
			});
			perturb(0, 0, 0);
			rma.end();
			pbarrier(raw);
			if (!bad.empty()) report.fail("exclusion", bad);
			long n = 0, all, e = entered;
			for (unsigned i = 0; i < size * L; i++) n += sh[i * 2 + 1];
			PMPI_Allreduce(&e, &all, 1, MPI_LONG, MPI_SUM, raw);
			if (n != all) report.fail("exclusion-count", fmt("%ld unprotected increments survived of %ld critical sections", n, all));
			for (unsigned i = 0; i < L; i++) if (mem[i * 3 + 2] != -1) report.fail("left-locked", fmt("lock %u is %ld after everybody released it", i, mem[i * 3 + 2]));
			report.observe("critical_sections", entered);
			report.observe("contended", contended);
			report.eval(cfg + fmt(" %llu", (unsigned long long) (cs & 0xffff)));
			PMPI_Win_free(&win);
			delete ncs[0];
		}
		balance.check("the mutex");
	}
	munmap((void*) sh, bytes);
	pbarrier(MPI_COMM_WORLD);
	if (rank == 0) unlink(shm.c_str());
	PMPI_Comm_free(&raw);
	heartbeat++;
	if (wrank == 0) report.sample(cfg);
}
#endif

