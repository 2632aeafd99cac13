// Interposition layer (linker --wrap): observes file accesses, injects
// schedule perturbation, spurious wake-ups and faults, and fakes the NUMA
// topology seen by the library.
#ifndef VERIF_HOOKS_H
#define VERIF_HOOKS_H
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace vf {

/** One read of the netCDF data variable (outermost call made by the library) */
struct ReadEvent
{
	int ncid;
	int varid;
	unsigned thread;        // harness thread index
	std::vector<size_t> start, count;
};

/** The logical CPU the calling thread pretends to run on (and its NUMA node) */
void setThread(unsigned index, int cpu);
unsigned threadIndex();
/** node of each fake cpu; cpus outside the table are on node 0 */
void setTopology(const std::vector<int>& nodeOfCpu);
/** -1 in the table makes the corresponding query fail (numa_node_of_cpu < 0) */

/** Read log */
void readLogEnable(bool on);
void readLogClear();
std::vector<ReadEvent> readLog();
uint64_t readCount();          // reads with ndims >= 1 of non-coordinate variables
/** coordinate variables are read through nc_get_var1_double: counted apart */
uint64_t coordReadCount();
uint64_t openCount();
uint64_t closeCount();
uint64_t libraryOverlap();     // netCDF calls that overlapped another netCDF call

/** Delay injection: percent of hooked calls that yield/sleep; max usec */
void perturb(int percent, unsigned maxUsec, uint64_t seed);
/** Extra delay for every data read (usec) */
void readDelay(unsigned usec);
/** Spurious wake-ups: percent of pthread_cond_wait calls returning early */
void spurious(int percent, uint64_t seed);
uint64_t spuriousCount();
uint64_t perturbCount();
/** Possible delay at a point of the harness' own interposers */
void delayPoint();
/** The calling thread is delayed often and long at every hooked call (0 = no longer) */
void slowThread(int percent, unsigned maxUsec);

/** CPUs passed to pthread_setaffinity_np so far (one entry per call: list of CPUs) */
std::vector<std::vector<int> > affinityLog();
void affinityClear();

/** Makes nc_open fail with NC_ENFILE in the harness threads of this mask (bit i: thread i) */
void failOpenThreads(uint64_t mask);
/** Number of opens that failed this way */
uint64_t failedOpens();

/** Thread-specific keys alive, and deletions of keys that were not alive */
long liveKeys();
uint64_t badKeyDeletes();

/** Heap blocks allocated outside netCDF (ASan builds): tracking on/off and number currently alive */
void trackHeap(bool on);
long liveBlocks();
long liveBytes();
uint64_t trackedAllocations();
/** Only count allocations of threads that called setThread (MPI runs: not those of MPI's own threads) */
void heapMarkedOnly(bool on);
/** Allocations inside are not the library's (calls into MPI) */
struct Foreign { Foreign(); ~Foreign(); };

/** The harness' own netCDF use (file generation) bypasses the log */
struct Quiet { Quiet(); ~Quiet(); };

}
#endif
