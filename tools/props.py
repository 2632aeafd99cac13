"""Source of properties.jsonl and MANIFEST.json (tools/gen.py writes both)."""


def P(pid, title, statement, over, quant, why, files, mech, note, technique, state=(), observe=(), hook=None, na=None):
    return dict(id=pid, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                note=note, technique=technique, state=state, observe=observe, hook=hook, na=na)


TRUST = "Says what was observed on the executions produced (random but seeded workloads); trusts netCDF/HDF5, the compiler's sanitizers and the executable model in harness/model.h."

PROPS = [
P("C01", "Every access returns the value stored in the input file",
  "For every opened grid level and every position inside a cell, every value accessor returns exactly the value the netCDF variable holds for that cell (converted to the grid's type), whatever the grid type (FULL, CACHE, PASS_THROUGH), block sizes, cache size, NUMA communication mode, number of dimensions (0 to the supported maximum), grid shape, cell type and number of threads. The parameters only change performance, never results.",
  ["inputs", "configurations"], "all grid shapes, cell types, file types, parameter combinations, thread/NUMA topologies and positions",
  "The tests that run only cover cache, NUMA and thread helpers and never open a grid (the integration programs use two fixed files and hardly any parameters).",
  ["grid/simplecontainer.h", "grid/level/level.h", "grid/level/blocked.h", "grid/level/full.h", "grid/level/fulldist.h", "grid/level/cache.h", "grid/level/cachedist.h", "grid/level/passthrough.h", "io/netcdfreader.h", "io/netcdfreader.cpp", "grid/grid.cpp"],
  [("position to index", "grid/level/level.h"), ("index to block and offset in block", "grid/level/blocked.h"), ("block load", "grid/level/full.h"), ("selection of the storage strategy", "grid/grid.cpp initContainers")],
  TRUST + " Full type list, ASan+UBSan build, up to 4 threads on up to 3 faked NUMA domains.",
  "differential monitor against a file model under ASan/UBSan", observe=("asagi::Grid::get*",)),
P("C02", "Positions select the nearest cell; ranges describe the coordinates",
  "A position selects, in each dimension, the cell whose coordinate is nearest (coordinates given by the coordinate variable's first and last value and the number of values, or 0,1,2,... without one; ascending or descending), positions outside the grid select the closest boundary cell, and dimensions of size one accept any position. getMin/getMax are the outermost coordinates (VERTEX_CENTERED) or half a cell beyond them (CELL_CENTERED), infinite for size one; getDelta is the absolute cell distance. Every position within [getMin, getMax] is accepted without an out-of-range warning.",
  ["inputs", "configurations"], "all coordinate offsets and spacings (positive, negative, tiny, huge), value positions and query positions, on cell edges, at and beyond the range ends",
  "No test that runs evaluates a coordinate; rounding and clamping errors appear only at specific offsets/signs.",
  ["grid/level/level.h", "grid/simplecontainer.h", "io/netcdfreader.cpp"],
  [("offset/scaling from coordinate variable", "grid/level/level.h open"), ("position to index, clamping", "grid/level/level.h")],
  TRUST + " Positions exactly on a boundary between two cells accept either neighbour.",
  "differential monitor against an exact (long double) nearest-cell oracle", observe=("asagi::Grid::getLong/getMin/getMax/getDelta",)),
P("C03", "Typed reads convert the first element; getBuf copies exact cells",
  "For basic, array and structure grids of every primitive type, getVarSize is the size of a cell, getBuf writes exactly those bytes with every element at its displacement, and getByte/getInt/getLong/getFloat/getDouble return the (first) element of the cell converted by the C rules. No accessor writes outside the destination.",
  ["inputs", "configurations"], "all cell types, array lengths, structure layouts (block lengths, displacements, padding), file types and values representable in the destination",
  "Tests only construct a struct type; no accessor, conversion or byte layout is tested.",
  ["types/basictype.h", "types/arraytype.h", "types/structtype.h", "types/structtype.cpp", "types/type.h", "grid/simplecontainer.h", "io/netcdfreader.h"],
  [("conversion", "types/basictype.h convert"), ("memory layout of structures", "types/structtype.h"), ("typed netCDF reads", "io/netcdfreader.h")],
  TRUST + " Bytes in padding are not compared.",
  "byte-exact differential monitor with guard bytes under ASan/UBSan", observe=("asagi::Grid::getBuf", "asagi::Grid::getVarSize")),
P("C04", "Concurrent accesses through shared caches return correct values",
  "Any number of threads (up to the number announced) may access the same grid at the same time on any number of NUMA domains; every access returns the value of its own cell, for every interleaving of hits, misses, evictions, transfers between domains and loads, even when the cache has fewer blocks than there are threads.",
  ["schedules", "configurations"], "all interleavings of concurrent accesses, all cache sizes down to one block",
  "Unit tests touch the cache from one thread with a hand-written sequence of block ids.",
  ["cache/cachemanager.h", "cache/lru.h", "grid/level/cache.h", "grid/level/cachedist.h", "grid/level/full.h", "grid/level/fulldist.h", "transfer/numacache.h", "transfer/numafull.h", "threads/mutex.h"],
  [("per-entry locks and re-check after locking", "cache/cachemanager.h"), ("NUMA block copy under the owner's entry lock", "transfer/numacache.h")],
  TRUST + " Schedules are diversified by delays injected at lock, unlock and netCDF calls and by spurious wake-ups; not exhaustive.",
  "differential monitor under injected schedule perturbation (ASan/UBSan)", observe=("asagi::Grid::get*",)),
P("C05", "A cache holds the configured number of blocks and replaces by two hands",
  "A cached grid keeps exactly CACHE_SIZE blocks (default 128): an access to a cached block never reads the file, an access to a block not cached reads exactly one block, the block used last is never evicted by the next different access except when it is the only one, and the victim is chosen by the two-handed clock (second chance) with the configured distance of the hands (CACHE_HAND_SPREAD, default half the cache).",
  ["histories", "configurations"], "all access histories, cache sizes and hand spreads, including spreads not smaller than the cache",
  "The unit test of the replacement list covers three entries and one access sequence.",
  ["cache/lru.h", "cache/cachemanager.h", "grid/level/cache.h"],
  [("two-handed clock", "cache/lru.h"), ("block to entry map", "cache/cachemanager.h")],
  TRUST + " Sequential histories; hits and misses are told apart by observing netCDF reads.",
  "online checker: every access compared with an executable clock model, file reads observed at the netCDF boundary", observe=("nc_get_var*",)),
P("C06", "Access counters tell where every access was served",
  "For each level, accesses counts the value accesses, file_loads the blocks read from the file, numa_transfers and mpi_transfers the blocks copied from other domains/processes since the level was opened; local_misses = numa + mpi + file, local_hits = accesses - local_misses, node_hits = accesses - mpi - file. Accesses on one level never change counters of another, opening does not count, unknown names give 0, and with thread-safe counters no increment is lost.",
  ["histories", "schedules", "configurations"], "all access histories, levels, storage strategies; with THREADSAFE_COUNTER all interleavings",
  "The counter test increments one counter object directly; it sees neither levels nor real accesses.",
  ["perf/counter.h", "perf/counter.cpp", "grid/simplecontainer.h", "grid/level/level.h", "grid/grid.cpp"],
  [("counter storage and name lookup", "perf/counter.cpp"), ("increments", "grid/level/*.h, transfer/*.h")],
  TRUST + " Default (not thread-safe) counters are only judged on one access at a time.",
  "conservation monitor: counters against observed netCDF reads and calls", observe=("asagi::Grid::getCounter", "nc_get_var*")),
P("C08", "Closing a grid releases everything it acquired",
  "After a grid is closed, no memory, netCDF file or file descriptor it acquired is left, also when opening failed before (missing file or variable), when a level was opened again after an error, when it has several levels, threads and NUMA domains, and when it was never opened.",
  ["histories", "configurations", "fault_sequences"], "all life cycles: create, failed opens, retries, accesses, close; all storage strategies",
  "No test opens a grid, none looks at resources.",
  ["grid/grid.cpp", "grid/simplecontainer.h", "grid/level/level.h", "grid/level/full.h", "cache/cachemanager.h", "numa/numacomm.h", "allocator/default.h", "io/netcdfreader.cpp"],
  [("destructors of levels, containers, allocators", "grid/simplecontainer.h ~SimpleContainer"), ("file closed at end of open / in the destructor", "grid/level/level.h")],
  TRUST + " Memory is counted as heap blocks allocated outside netCDF and still alive after repeated identical life cycles.",
  "conservation monitor over repeated life cycles: heap blocks, nc_open/nc_close pairs, descriptors", observe=("malloc/free", "nc_open/nc_close", "/proc/self/fd")),
P("C09", "No data races inside the library",
  "Threads that use the library as documented (no more threads than announced; different threads on the same or different grids; opening, accessing, reading counters and closing different grids concurrently) never cause a data race, in the grid code, the synchronisation primitives, the NUMA layer, the counters (when built thread-safe) or the registries.",
  ["schedules", "histories", "configurations"], "all interleavings of threads over open, access, counter reads and close; all storage strategies and NUMA topologies",
  "The unit tests that use threads run without a race detector and on tiny histories; a race hardly ever changes their outcome.",
  ["cache/cachemanager.h", "grid/simplecontainer.h", "grid/level/level.h", "io/netcdfreader.cpp", "numa/numacomm.h", "numa/numa.h", "numa/numa.cpp", "perf/counter.h", "threads/sync.h", "threads/once.h", "threads/mutex.h", "transfer/numacache.h"],
  [("entry locks", "cache/cachemanager.h"), ("global netCDF lock", "io/netcdfreader.cpp"), ("thread-specific keys", "numa/numa.h"), ("barrier/broadcast", "threads/sync.h, numa/numacomm.h")],
  TRUST + " ThreadSanitizer judges happens-before on the schedules produced; netCDF/HDF5 internals are not instrumented, overlapping netCDF calls are detected by the call wrappers instead.",
  "ThreadSanitizer over all multi-threaded workloads plus an overlap detector for netCDF calls", observe=("every memory access",)),
P("C10", "Barrier, broadcast and exclusive sections hold under any schedule",
  "A barrier (threads::Sync) releases nobody before everybody has arrived, and then everybody, for any number of rounds; threads announced as last leave after all others; between start and wait and between wait and end a thread is alone; a broadcast delivers the root's value to all threads. Spurious wake-ups and delays never break any of this, and what a thread wrote before the barrier is visible to all after it.",
  ["schedules", "histories"], "all numbers of threads, rounds, mixes of operations, delays and spurious wake-ups",
  "The existing tests cross a barrier a handful of times without delays or spurious wake-ups.",
  ["threads/sync.h", "numa/numacomm.h", "numa/numa.h"],
  [("arrival counter and finishing phase", "threads/sync.h waitBarrier"), ("broadcast", "threads/sync.h broadcast")],
  TRUST + " Spurious wake-ups are injected at pthread_cond_wait, delays at every lock operation.",
  "online checker of arrival/departure events under injected spurious wake-ups and delays", observe=("threads::Sync", "numa::Numa::broadcast")),
P("C11", "Once runs the action exactly once and everybody waits for it",
  "For threads::Once, however many threads call saveExec at the same time, the function is executed exactly once, and no call returns before that execution has finished; its effects are visible to every caller.",
  ["schedules"], "all interleavings of any number of callers, including callers after completion",
  "The unit test calls it from a few threads at once and cannot force the overlap of a running action with a second caller.",
  ["threads/once.h", "threads/mutex.h", "grid/grid.cpp"],
  [("state check under the lock", "threads/once.h")],
  TRUST, "online checker: execution count and completed flag seen by every caller, under injected delays", observe=("threads::Once::saveExec",)),
P("C12", "Threads get unique ids, consistent NUMA domains and one master each",
  "When the announced number of threads register, every thread gets a unique id in 0..n-1; threads of the same node share a domain and threads of different nodes do not (all share one domain with detection off); domain ids are 0..domains-1, exactly one thread per domain is its master, and every thread knows the number of domains when registration returns. Registering again changes nothing. Broadcasts over threads or domains deliver the root's value; memory allocated for all domains is one distinct part each.",
  ["schedules", "configurations"], "all numbers of threads, assignments of threads to nodes, registration orders",
  "Tests run on the node topology of the test machine, typically a single domain.",
  ["numa/numa.h", "numa/numa.cpp", "numa/numacomm.h", "threads/sync.h"],
  [("assignment of node to domain, id and master", "numa/numa.cpp registerThread"), ("broadcast and allocation between domains", "numa/numacomm.h")],
  TRUST + " Topologies are faked at sched_getcpu/numa_node_of_cpu.",
  "online checker of ids and domain broadcasts over faked topologies with schedule perturbation", observe=("numa::Numa::registerThread", "numa::NumaComm")),
P("C13", "Failures are reported by the documented code, to every thread",
  "open returns SUCCESS on valid input and otherwise the documented code for a file that cannot be opened, a missing variable, too many dimensions, a cell size that does not fit the type or differs between levels; with several threads every thread gets the same code and returns, also when only some of the threads or NUMA domains cannot open the file. A failed open leaves the grid usable: a later open with corrected arguments succeeds, levels opened before stay valid, and close works.",
  ["fault_sequences", "configurations", "schedules"], "all failure kinds, orders of failing and succeeding opens, thread/NUMA topologies, storage strategies",
  "No test opens a file, valid or not.",
  ["grid/grid.cpp", "grid/simplecontainer.h", "grid/level/level.h", "grid/level/blocked.h", "io/netcdfreader.cpp", "include/asagi.h"],
  [("checks at open", "grid/level/level.h"), ("broadcast of the result to all threads", "numa/numacomm.h"), ("size checks", "grid/simplecontainer.h, types/*.h")],
  TRUST, "fault injection with a return-code monitor in every thread", observe=("asagi::Grid::open",)),
P("C14", "Levels are independent and may be opened in any order",
  "Each level has its own file, variable, shape, coordinates, block sizes and cache; levels can be opened in any order, from the same or different files, before, between or after accesses to other levels, and opening or using one level never changes what another level returns.",
  ["histories", "configurations"], "all numbers of levels, opening orders and interleavings of opens with accesses",
  "No test opens a level.",
  ["grid/simplecontainer.h", "grid/grid.cpp", "grid/level/level.h"],
  [("level storage grows without moving levels", "grid/simplecontainer.h"), ("per-level parameters", "grid/grid.cpp param")],
  TRUST, "differential monitor over random open/access histories (ASan/UBSan)", observe=("asagi::Grid::open", "asagi::Grid::get*")),
P("C15", "Parameters take effect as documented, defaults apply otherwise",
  "Parameter names (and values other than the variable name) are insensitive to case and to '-' versus '_', the last setting wins, and settings of one level do not affect another. Blocks read from the file are aligned boxes of exactly the requested extent (clipped at the grid's end; 64 per dimension by default, 1 for the time dimension, the whole dimension for negative or larger values), and unknown GRID, VALUE_POSITION or TIME_DIMENSION values fall back to the default with a warning.",
  ["inputs", "configurations"], "all parameter sets, spellings, overwrite orders, grid shapes",
  "No test sets a parameter.",
  ["grid/grid.cpp", "grid/level/blocked.h", "grid/level/level.h"],
  [("normalisation of names and values", "grid/grid.cpp setParam"), ("block sizes", "grid/level/blocked.h open")],
  TRUST + " Effective block sizes are observed as the start/count of netCDF reads.",
  "online checker of observed file reads against the requested configuration", observe=("nc_get_vara*",)),
P("C16", "A FULL grid loads each block exactly once, evenly over NUMA domains",
  "When a FULL grid is opened by threads on several NUMA domains, every cell is read from the file exactly once, no domain loads more than its share (number of blocks divided by the domains, rounded up), for round-robin and contiguous distribution, and after open the file is never read again.",
  ["configurations", "schedules"], "all shapes, block sizes, numbers of threads and domains, both distributions",
  "No test distributes blocks.",
  ["grid/level/blocked.h", "grid/level/full.h", "grid/level/fulldist.h", "numa/numacomm.h"],
  [("block to rank/domain/offset map", "grid/level/blocked.h"), ("load loop", "grid/level/full.h")],
  TRUST + " Both ROUND_ROBIN settings are built.",
  "coverage monitor over the log of netCDF reads of every domain", observe=("nc_get_vara*",)),
P("C22", "Grids do not influence each other",
  "Different grids may be created, opened, accessed and closed at the same time by different threads, on the same or different files, also when the same thread uses several of them from different NUMA domains; each behaves as if it were the only one. Distributed grids are opened and closed in the same order on all processes; meanwhile other grids can be accessed.",
  ["schedules", "histories"], "all interleavings of life cycles of several grids",
  "No test has two grids.",
  ["grid/grid.cpp", "numa/numa.cpp", "numa/numa.h", "io/netcdfreader.cpp", "fortran/pointerarray.h", "threads/mutex.h"],
  [("global netCDF lock", "io/netcdfreader.cpp"), ("process-wide registries under locks", "numa/numa.h, fortran/pointerarray.h")],
  TRUST, "differential monitor over concurrent life cycles with schedule perturbation (ASan/UBSan)", observe=("asagi::Grid::open/get*/close",)),
P("C23", "Blocks held by another NUMA domain are copied, not read again",
  "With NUMA communication enabled (the default), an access to a block not held by the own domain but held by another domain is served by one copy between the domains and not from the file; a FULL grid never reads the file after open, a cached grid reads a block from the file only when no domain holds it. With NUMA_COMMUNICATION=CACHE, copies are cached.",
  ["histories", "configurations"], "all access histories over threads of several domains, cache sizes and topologies",
  "Needs several NUMA domains and a grid; no test has either.",
  ["grid/grid.cpp", "grid/level/cachedist.h", "grid/level/fulldist.h", "transfer/numacache.h", "transfer/numafull.h", "cache/cachemanager.h"],
  [("selection of the strategy", "grid/grid.cpp"), ("lookup in the caches of other domains", "transfer/numacache.h")],
  TRUST + " NUMA topology faked at sched_getcpu/numa_node_of_cpu; sequential histories.",
  "online checker: every access compared with a per-domain cache model", observe=("nc_get_var*", "getCounter")),
P("C24", "A pass-through grid reads exactly one cell per access",
  "With GRID=PASS_THROUGH every access performs exactly one read of exactly the selected cell from the file, open reads no data, any number of threads may do so concurrently, and changing nothing else gives the same values as the other grid types.",
  ["histories", "schedules", "configurations"], "all shapes, types, thread counts and access histories",
  "No test reads through a grid.",
  ["grid/level/passthrough.h", "io/netcdfreader.cpp", "io/netcdfreader.h"],
  [("single-cell read", "grid/level/passthrough.h")],
  TRUST, "checker over the log of netCDF reads against the log of accesses", observe=("nc_get_var*",)),
P("C17", "A FULL grid shared by several processes holds every block once",
  "When several processes open a FULL grid over one communicator, every cell is read from the file exactly once over all processes and evenly spread over processes and NUMA domains, and every access in any process and thread returns the correct value; blocks of another process are fetched by one MPI transfer and never from the file. This holds for MPI_COMMUNICATION=WINDOW and THREAD, any number of processes, threads, domains, levels and grids, any sub-communicator, and for processes of arbitrarily different speed.",
  ["schedules", "configurations", "inputs"], "all numbers of processes, threads, domains, levels, shapes, block sizes, communication modes and relative speeds",
  "The tests that run are sequential programs without any MPI communication between processes.",
  ["grid/level/blocked.h", "grid/level/full.h", "grid/level/fulldist.h", "transfer/mpiwinfull.h", "transfer/mpithreadfull.h", "mpi/commthread.h", "mpi/commthread.cpp", "mpi/mpicomm.h", "allocator/mpialloc.h"],
  [("block to rank/domain/offset map", "grid/level/blocked.h"), ("one-sided reads from the owner's window", "transfer/mpiwinfull.h"), ("request and reply over the communication thread", "transfer/mpithreadfull.h")],
  TRUST + " 2 to 5 (8 in thorough runs) real MPI processes on one machine; Open MPI 4.1 with shared memory transport.",
  "differential and conservation monitors over real MPI runs: values, file-read log merged over processes, counters (ASan/UBSan)", observe=("asagi::Grid::get*", "nc_get_var*", "getCounter")),
P("C18", "Cached grids of several processes fetch blocks from each other",
  "In a cached grid shared by several processes, an access to a block not in the local cache is served by a copy from a process that holds it if the directory knows one, and from the file otherwise; the value is correct for every interleaving of accesses, evictions and transfers in all processes. The directory follows insertions and evictions: while no cache overflows no block is read from the file twice, and an entry never names a place that does not hold the block when it is used.",
  ["schedules", "histories", "configurations"], "all histories of accesses over processes and threads, cache sizes down to one block, hand spreads, numbers of levels and grids, WINDOW and THREAD communication",
  "No test has a distributed cache or more than one process.",
  ["grid/level/cachedist.h", "transfer/mpiwincache.h", "transfer/mpithreadcache.h", "transfer/mpicache.h", "cache/cachemanager.h", "mpi/mutex.h", "mpi/commthread.cpp"],
  [("directory of holders", "transfer/mpi*cache.h"), ("re-check of the block id at the holder", "transfer/mpi*cache.h transfer"), ("fallback to the file", "grid/level/cachedist.h")],
  TRUST + " Services are judged exactly in runs where one access is made at a time over all processes; concurrent runs are judged on values, coverage, termination and memory errors. 2 to 4 real processes.",
  "online checker: every access compared with a model of all caches and the directory; differential monitor for concurrent runs (ASan/UBSan)", observe=("asagi::Grid::get*", "nc_get_var*", "getCounter")),
P("C19", "The communication thread delivers every message exactly once, in order",
  "Between registration and removal of a receiver, every message sent to it arrives exactly once, at the receiver it was sent to and with its sender and content, and messages of one sending thread to one receiver arrive in the order sent, also from processes that register earlier or later and however many receivers have been registered and removed before. Starting pins the thread to the requested CPU (counted from the end if negative), stopping ends it after its receivers are gone, and start/stop can be repeated without leaving MPI resources behind.",
  ["schedules", "histories", "configurations"], "all numbers of processes, communicators, receivers and concurrent senders, orders of registration and removal, CPU ids",
  "No test starts the communication thread.",
  ["mpi/commthread.h", "mpi/commthread.cpp", "mpi/mpicomm.h"],
  [("translation of ranks, tags and receivers", "mpi/commthread.cpp"), ("waiting for all processes in registration", "mpi/commthread.cpp registerReceiver")],
  TRUST + " 2 to 5 real processes; ASan and ThreadSanitizer builds.",
  "exactly-once/order checker over the recorded messages of all processes (ASan, TSan)", observe=("mpi::CommThread", "pthread_setaffinity_np")),
P("C20", "The node-local rank is unique and dense on every node",
  "asagi::Grid::nodeLocalRank (and its C and Fortran forms) gives the processes of a communicator that run on the same node the ranks 0..k-1, each once and in the order of their ranks, whatever the names of the nodes and also if different names have the same checksum.",
  ["inputs", "configurations"], "all numbers of processes and assignments of node names, including names with colliding checksums",
  "Tests run on one node with one process.",
  ["asagi.cpp", "include/asagi.h"],
  [("checksum split and comparison of names", "asagi.cpp nodeLocalRank")],
  TRUST + " Node names are faked at MPI_Get_processor_name.",
  "oracle over faked processor names in real MPI runs", observe=("asagi::Grid::nodeLocalRank",)),
P("C25", "Distributed grids leave no MPI resource behind and fail together",
  "After all processes close a distributed grid (after any number of opens, failed or not, or none), no window, communicator, data type, group, attribute key, MPI memory, heap block, file or thread-specific key it acquired is left, for any number of repetitions. When an open fails in one thread, one NUMA domain or one process only because the communication thread is missing, or because MPI refuses a communicator, a data type, memory (in some processes) or a window, every thread of every process that shares the grid returns the same error code and nobody hangs.",
  ["histories", "configurations", "fault_sequences"], "all life cycles of distributed grids: never opened, failed and repeated opens, several levels, WINDOW and THREAD communication",
  "No test has a distributed grid; leaked MPI objects do not fail a test.",
  ["grid/grid.cpp", "mpi/mpicomm.h", "mpi/commthread.cpp", "transfer/mpiwinfull.h", "transfer/mpiwincache.h", "transfer/mpithreadfull.h", "transfer/mpithreadcache.h", "allocator/mpialloc.h", "types/structtype.h", "types/arraytype.h"],
  [("destructors", "transfer/mpi*.h, mpi/mpicomm.h, types/*.h"), ("broadcast of errors to the other domains", "transfer/mpi*.h, numa/numacomm.h, grid/level/level.h")],
  TRUST + " MPI objects are counted at the profiling interface.",
  "conservation monitor over MPI create/free calls, heap and files in repeated life cycles", observe=("MPI_*_create/free", "malloc/free", "nc_open/nc_close")),
P("C27", "With THREADSAFE_MPI no two threads are inside MPI at the same time",
  "When the library is built for MPI implementations without full thread support (THREADSAFE_MPI), the threads of a process never execute two MPI calls of the library at the same time while grids are opened, accessed and closed.",
  ["schedules", "configurations"], "all interleavings of threads on distributed grids",
  "No test makes an MPI call from several threads, and overlapping calls are usually harmless with a thread-safe MPI.",
  ["mpi/mpicomm.h", "transfer/mpiwinfull.h", "transfer/mpiwincache.h", "allocator/mpialloc.h", "types/structtype.h", "types/arraytype.h", "grid/level/fulldist.h"],
  [("global MPI lock", "mpi/mpicomm.h mpiLock"), ("locked windows and types", "transfer/mpiwin*.h, types/*.h")],
  TRUST + " Calls are observed at the MPI profiling interface with injected delays.",
  "overlap detector at the MPI profiling interface under schedule perturbation", observe=("MPI_*",)),
P("C28", "The lock between processes is exclusive and always handed on",
  "The lock used for directory entries (MPI-3) is held by at most one thread of all processes at a time, whichever process owns the memory; every waiting thread eventually gets it, also when several threads of one process wait, and after the last release the lock is free again.",
  ["schedules", "configurations"], "all interleavings of acquire, wait and release by any number of processes and threads on any number of locks",
  "No test uses the lock.",
  ["mpi/mutex.h", "mpi/mpicomm.h"],
  [("chain of waiting ranks and hand-over message", "mpi/mutex.h")],
  TRUST + " 2 to 5 real processes, up to 3 threads each; unbounded waiting is reported after 60 s without any progress, twice.",
  "mutual exclusion and lost-update monitor in memory shared by the processes", observe=("mpi::Mutex",)),
P("C07", "Hostile input never makes the library touch memory it does not own",
  "Whatever positions (not a number, infinite, huge, denormal), block sizes, hand spreads, time dimensions, cache sizes, parameter names, level numbers, coordinate variables (constant, infinite, not a number, not numeric, of another shape) and files (no netCDF file, no value at all) a caller passes, the library never reads or writes memory it does not own, never evaluates undefined arithmetic and never decides by memory nobody has written; every value handed to the user has been read from the file; open either succeeds or returns an error code, and an access returns the value of some cell of the grid: the nearest one where the position determines it, the closest boundary cell outside of the grid.",
  ["inputs", "configurations"], "all doubles as positions, all integers as numeric parameters, all coordinate variables netCDF can hold",
  "Tests use a handful of ordinary coordinates; extreme values overflow conversions silently.",
  ["grid/level/level.h", "grid/level/blocked.h", "grid/grid.cpp", "grid/simplecontainer.h", "io/netcdfreader.h", "io/netcdfreader.cpp", "cache/lru.h", "perf/counter.cpp"],
  [("clamping of indices", "grid/level/level.h pos2index"), ("clipping of block sizes", "grid/level/blocked.h open"), ("coordinate variables", "io/netcdfreader.h")],
  TRUST + " Corrupt netCDF files (with a valid header) and numbers that do not fit an int are not generated.",
  "AddressSanitizer and UndefinedBehaviorSanitizer over generated hostile input with a membership oracle; Valgrind memcheck over all workloads of one process", observe=("every memory access", "asagi::Grid::getBuf")),
P("C21", "The C and Fortran interfaces do what the C++ interface does",
  "Every function of the C and Fortran interfaces has exactly the effect and result of its C++ counterpart: constants have the same meaning, optional arguments the same defaults, strings of any length arrive unchanged, handles of Fortran stay valid and distinct for any number of grids created and closed in any order by any thread, and grids of different languages can be used side by side, also with communicators, the communication thread and the node-local rank.",
  ["inputs", "histories", "configurations"], "all functions of the three interfaces, cell types, levels, strings, histories of creating and closing grids by several threads",
  "Tests cover one example per language with fixed files, and the tests that run only the handle table.",
  ["asagi.cpp", "asagi_f90.cpp", "include/asagi.h", "include/asagi.f90", "fortran/pointerarray.h", "grid/grid.h"],
  [("C wrappers", "asagi.cpp"), ("Fortran wrappers and handle table", "asagi_f90.cpp, fortran/pointerarray.h"), ("constants and bindings", "include/asagi.h, include/asagi.f90")],
  TRUST + " The Fortran module of the tree is compiled with gfortran; communicator arguments are passed through the bind(c) functions.",
  "differential monitor: the same random histories through C++, C and Fortran, compared with the file model (ASan/UBSan)", observe=("asagi_grid_*", "module asagi", "asagi::Grid")),
P("C26", "Every call returns: no deadlock or livelock",
  "Opening, accessing and closing grids always terminates when all participants do what is documented, however many threads, NUMA domains and processes fight for however few cache entries, blocks and locks, with and without communication thread, at any relative speed.",
  ["schedules", "configurations"], "all interleavings of threads and processes, cache sizes down to one block",
  "A deadlock needs several processes or threads to meet in a certain order; no test has that.",
  ["cache/cachemanager.h", "grid/level/cachedist.h", "grid/level/fulldist.h", "transfer/mpiwincache.h", "transfer/mpithreadcache.h", "transfer/numacache.h", "mpi/commthread.cpp", "mpi/mutex.h", "threads/sync.h"],
  [("try-lock between domains", "cache/cachemanager.h tryGet"), ("requests served while waiting", "mpi/commthread.cpp"), ("order of window, cache and entry locks", "transfer/mpiwincache.h")],
  TRUST + " A run without progress for 60 s (all threads blocked: at once) counts as a hang if a second run of the same case hangs, too.",
  "progress watchdog and differential monitor over contention-heavy workloads with injected delays", observe=("asagi::Grid::open/get*/close",)),
P("C29", "Build options change performance, never results",
  "The library gives the same results in every supported build: without NUMA or MPI support or thread safety, with every thread in its own domain (DEBUG_NUMA), with contiguous instead of round-robin distribution, thread-safe counters, without MPI-3, with and without assertions, and for any maximum number of dimensions.",
  ["configurations", "inputs"], "all combinations of NOMPI, NONUMA, THREADSAFE, THREADSAFE_COUNTER, THREADSAFE_MPI, ROUND_ROBIN, MPI3, MAX_DIMENSIONS, NDEBUG that build",
  "Tests run in one build.",
  ["grid/level/blocked.h", "grid/grid.cpp", "numa/numa.cpp", "threads/mutex.h", "threads/noopmutex.h", "perf/counter.h", "io/netcdfreader.cpp", "mpi/mpicomm.h", "allocator/mpialloc.h"],
  [("distribution of blocks", "grid/level/blocked.h"), ("selection of the strategy", "grid/grid.cpp"), ("selection of locks", "threads/mutex.h")],
  TRUST + " Six builds besides those of the other checks (std::mutex instead of pthreads does not compile and is not supported by the build system).",
  "differential monitor against the file model in six further builds (ASan/UBSan)", observe=("asagi::Grid::*",)),
]
