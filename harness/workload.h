// Helpers shared by the workload programs: topologies, parameters, block arithmetic, replacement model
#ifndef VERIF_WORKLOAD_H
#define VERIF_WORKLOAD_H
#include <algorithm>
#include <set>

#include "model.h"

using namespace vf;

typedef std::map<std::string, std::string> Params;

struct Topo
{
	unsigned threads;
	std::vector<int> node; // node of each thread
	unsigned domains() const { return std::set<int>(node.begin(), node.end()).size(); }
	std::string str() const { std::string s = fmt("thr=%u nodes=", threads); for (size_t i = 0; i < node.size(); i++) s += fmt("%d", node[i]); return s; }
};

/** Now and then many more threads and nodes than this machine has CPUs (set by programs without MPI) */
static bool crowds = false;

static inline Topo randTopo(Rng& r, unsigned maxThreads, unsigned maxNodes)
{
	Topo t;
	if (crowds && r.chance(2)) {
		maxThreads = 48;
		maxNodes = 16;
	}
	t.threads = 1 + r.below(maxThreads);
#ifndef THREADSAFE
	t.threads = 1; // builds for one thread
#endif
	unsigned n = 1 + r.below(maxNodes);
	for (unsigned i = 0; i < t.threads; i++)
		t.node.push_back(r.below(n) * 2 + 1); // node numbers need not be dense
	return t;
}

static inline std::string pstr(const Params& p)
{
	std::string s;
	for (Params::const_iterator i = p.begin(); i != p.end(); ++i)
		s += i->first + "=" + i->second + " ";
	return s;
}

static inline void apply(AG* g, const Params& p, unsigned level)
{
	for (Params::const_iterator i = p.begin(); i != p.end(); ++i)
		g->setParam(i->first.c_str(), i->second.c_str(), level);
}

static inline const char* errName(AG::Error e)
{
	static const char* n[] = { "SUCCESS", "MPI_ERROR", "THREAD_ERROR", "NUMA_ERROR", "UNKNOWN_PARAM", "INVALID_VALUE",
		"NOT_INITIALIZED", "ALREADY_INITIALIZED", "NOT_OPEN", "VAR_NOT_FOUND", "WRONG_SIZE", "UNSUPPORTED_DIMENSIONS", "INVALID_VAR_SIZE" };
	return (int) e >= 0 && (int) e < 13 ? n[(int) e] : "?";
}

/** A random in-cell position of the cell idx */
static inline void jitter(Rng& r, const FileSpec& f, const size_t* idx, double* pos)
{
	for (unsigned n = 0; n < f.nd(); n++) {
		const DimSpec& d = f.dims[n];
		double c = coordOf(d, idx[n]);
		double step = d.coord ? d.step : 1;
		if (d.size == 1) {
			pos[n] = r.chance(30) ? c : r.range(-1000000, 1000000) * 0.5;
		} else if (r.chance(30))
			pos[n] = c;
		else
			pos[n] = c + (r.unit() - 0.5) * 0.96 * step;
	}
}

static inline std::string posStr(const double* p, unsigned nd)
{
	std::string s;
	for (unsigned i = 0; i < nd; i++) s += fmt("%s%.17g", i ? "," : "", p[i]);
	return s;
}

static inline Params randBlocks(Rng& r, const FileSpec& f)
{
	Params p;
	for (unsigned n = 0; n < f.nd(); n++) {
		if (r.chance(35))
			continue;
		long b;
		switch (r.below(5)) {
		case 0: b = -1; break;
		case 1: b = 1; break;
		case 2: b = f.dims[n].size + r.below(3); break;
		default: b = 1 + r.below(f.dims[n].size); break;
		}
		p[fmt(r.chance(50) ? "BLOCK_SIZE_%u" : "block-size-%u", n)] = fmt("%ld", b);
	}
	return p;
}

/** Total number of blocks for explicit settings */
static inline size_t effBlock(const Params& p, const FileSpec& f, unsigned n, int timeDim = -1)
{
	long b = 0;
	static const char* keys[] = { "BLOCK_SIZE_%u", "block-size-%u" };
	for (int k = 0; k < 2; k++) {
		char key[32];
		snprintf(key, sizeof key, k ? keys[1] : keys[0], n);
		Params::const_iterator i = p.find(key);
		if (i != p.end()) b = atol(i->second.c_str());
	}
	if (b == 0) b = timeDim == (int) n ? 1 : 64;
	if (b < 0) b = f.dims[n].size;
	return std::min((size_t) b, f.dims[n].size);
}

struct Blocks
{
	std::vector<size_t> bs, nb;
	size_t total, cells;
	Blocks() : total(1), cells(1) {}
	Blocks(const Params& p, const FileSpec& f, int timeDim = -1) : total(1), cells(1)
	{
		for (unsigned n = 0; n < f.nd(); n++) {
			bs.push_back(effBlock(p, f, n, timeDim));
			nb.push_back((f.dims[n].size + bs[n] - 1) / bs[n]);
			total *= nb[n];
			cells *= bs[n];
		}
	}
	size_t of(const size_t* idx) const
	{
		size_t b = 0;
		for (int n = bs.size() - 1; n >= 0; n--)
			b = b * nb[n] + idx[n] / bs[n];
		return b;
	}
};

/** Executable specification of the clock with two hands (second chance) */
struct Clock
{
	size_t size, next, clear;
	std::vector<char> ref;
	std::vector<long> slot;
	std::map<long, size_t> where;
	Clock(size_t n, long spread) : size(n), next(n - 1), clear(spread < 0 ? n / 2 : spread % n), ref(n, 0), slot(n, -1) {}
	/** true = hit */
	bool access(long b, long& evicted)
	{
		evicted = -1;
		std::map<long, size_t>::iterator i = where.find(b);
		if (i != where.end()) { ref[i->second] = 1; return true; }
		do {
			ref[clear] = 0;
			next = (next + 1) % size;
			clear = (clear + 1) % size;
		} while (ref[next]);
		ref[next] = 1;
		evicted = slot[next];
		if (evicted >= 0) where.erase(evicted);
		slot[next] = b;
		where[b] = next;
		return false;
	}
};

#endif
