// Workloads on the public grid API (builds without MPI), one --mode per property.
#include <algorithm>
#include <atomic>
#include <dirent.h>
#include <set>
#include <tuple>

#include "workload.h"

using namespace vf;

static std::atomic<uint64_t> warnings(0);
extern "C" void verif_log_warning(const char*) { warnings++; }

static uint64_t seedBase;
static Args* args;

// ---------------------------------------------------------------------------
// C01: the value of every cell equals the file, for every storage configuration
// C04: the same, on tiny shared caches with several threads and perturbation
// ---------------------------------------------------------------------------
static void modeValues(uint64_t cs, bool stress)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/v%d.nc", getpid()), stress ? 3000 : 4000);
	if (r.chance(3)) f.dims.clear(); // a scalar variable is a grid without dimensions
	Topo topo = stress ? randTopo(r, 8, 3) : randTopo(r, 4, 3);
	if (stress && topo.threads < 2) { topo.threads = 4; topo.node.assign(4, 1); if (r.chance(50)) topo.node[3] = topo.node[1] = 2; }
	setTopology(topo.node);

	Params p = randBlocks(r, f);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH", "PASS-THROUGH", "cache", "full" };
	std::string grid = stress ? (r.chance(75) ? "CACHE" : "FULL") : (r.chance(10) ? "" : grids[r.below(6)]);
	if (!grid.empty()) p["GRID"] = grid;
	static const char* numas[] = { "ON", "OFF", "CACHE" };
	if (r.chance(60)) p["NUMA_COMMUNICATION"] = numas[r.below(3)];
	if (r.chance(80) || stress) p["CACHE_SIZE"] = fmt("%ld", r.range(1, stress ? 6 : 20));
	if (r.chance(30) && p.count("CACHE_SIZE")) p["CACHE_HAND_SPREAD"] = fmt("%ld", r.range(-1, atol(p["CACHE_SIZE"].c_str()) + 3));
	if (r.chance(30)) p["MPI_COMMUNICATION"] = r.chance(50) ? "OFF" : "WINDOW"; // meaningless without MPI
	if (r.chance(20)) p["VALUE_POSITION"] = "VERTEX_CENTERED";
	if (r.chance(15)) p["TIME_DIMENSION"] = fmt("%ld", r.range(-1, f.nd()));

	Kind kind = (Kind) r.below(3);
	AG::Type type = (AG::Type) r.below(5);
	VarSpec v = randVar(r, kind, type);
	if (r.chance(50)) { v.name = fmt("v%lu", r.below(9)); p["VARIABLE"] = v.name; }
	f.vars.push_back(v);
	f.classic = kind == BASIC && v.fileType != NC_UBYTE && v.fileType != NC_INT64 && r.chance(25);
	writeFile(f);

	// Two threads sharing a grid with 64 threads is never modelled: total threads = team
	unsigned queries = stress ? 400 : std::min((size_t) 300, f.cells() * 2);
	if (grid == "PASS_THROUGH" || grid == "PASS-THROUGH") queries = std::min(queries, 120u);
	std::string cfg = describe(f) + " " + describe(v) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	std::string gkey = grid.empty() ? "FULL" : grid;
	std::transform(gkey.begin(), gkey.end(), gkey.begin(), ::toupper);
	std::replace(gkey.begin(), gkey.end(), '-', '_');

	if (stress) {
		perturb(r.range(2, 25), r.below(120), r.next());
		spurious(r.chance(40) ? 20 : 0, r.next());
		if (r.chance(30)) readDelay(r.below(150));
	}
	AG* g = createGrid(v);
	if (topo.threads > 1 || r.chance(50)) g->setThreads(topo.threads);
	apply(g, p, 0);
	std::vector<std::string> bad(topo.threads);
	std::vector<AG::Error> errs(topo.threads, AG::SUCCESS);
	uint64_t qseed = r.next();
	bool sweep = r.chance(40);
	uint64_t w0 = warnings;
	Team::run(topo.threads, [&](unsigned t) {
		Rng q(qseed + t * 7919);
		errs[t] = g->open(f.path.c_str());
		if (errs[t] != AG::SUCCESS)
			return;
		// hot set of cells so that threads collide on blocks
		std::vector<size_t> hot;
		for (int i = 0; i < 6; i++) hot.push_back(q.below(f.cells()));
		for (unsigned i = 0; i < queries && bad[t].empty(); i++) {
			size_t cell = sweep ? (i * 131 + t * 17) % f.cells() : (q.chance(40) ? q.pick(hot) : q.below(f.cells()));
			size_t idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(cell, idx);
			jitter(q, f, idx, pos);
			std::string m = compareCell(g, f, v, cell, pos, 0, 1u << q.below(6));
			if (!m.empty())
				bad[t] = fmt("thread %u cell %zu pos %s: %s", t, cell, posStr(pos, f.nd()).c_str(), m.c_str());
		}
	});
	perturb(0, 0, 0);
	spurious(0, 0);
	readDelay(0);
	uint64_t ok = 0;
	for (unsigned t = 0; t < topo.threads; t++) {
		if (errs[t] != AG::SUCCESS)
			report.fail("open:" + gkey, fmt("thread %u: open returned %s", t, errName(errs[t])));
		else if (!bad[t].empty())
			report.fail("value:" + gkey, bad[t]);
		else
			ok++;
	}
	// Structural facts any reader of the API sees
	if (errs[0] == AG::SUCCESS) {
		if (g->getDimensions() != f.nd()) report.fail("dims", fmt("getDimensions=%u", g->getDimensions()));
		if (g->getVarSize() != varBytes(v)) report.fail("varsize", fmt("getVarSize=%u expected %zu", g->getVarSize(), varBytes(v)));
	#ifdef ASAGI_NONUMA
		w0 = warnings; // asking for NUMA communication is worth a warning
#endif
		if (warnings != w0 && !p.count("TIME_DIMENSION") && topo.threads <= 8)
			report.fail("warning", "an in-range coordinate was reported as out of range");
	}
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("values_compared", (uint64_t) queries * ok);
	report.observe("grid_" + gkey);
	if (topo.domains() > 1) report.observe("multi_domain");
	if (topo.threads > 1) report.observe("multi_thread");
	Blocks b(p, f);
	if (b.total > 1) report.observe("multi_block");
	report.eval(b.total > 1 && f.cells() > 1 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C02: coordinates -> nearest cell; getMin/getMax/getDelta
// ---------------------------------------------------------------------------
static bool closeTo(double a, double b, double scale) { return std::fabs(a - b) <= 1e-9 * scale; }

static void modeCoords(uint64_t cs)
{
	Rng r(cs);
	FileSpec f;
	f.path = scratchDir() + fmt("/c%d.nc", getpid());
	unsigned nd = 1 + r.below(MAXD);
	static const size_t sz[] = { 1, 2, 3, 5, 9, 16, 31, 200 };
	for (unsigned i = 0; i < nd; i++) {
		DimSpec d;
		d.size = sz[r.below(nd == 1 ? 8 : (nd == 2 ? 7 : (nd <= 4 ? 5 : 3)))];
		d.coord = r.chance(80);
		if (d.coord) {
			switch (r.below(4)) {
			case 0: d.step = std::pow(10.0, r.range(-6, 6)) * (r.chance(50) ? 1 : -1); break;
			case 1: d.step = r.range(1, 1000) / 7.0 * (r.chance(50) ? 1 : -1); break;
			case 2: d.step = std::pow(2.0, r.range(-8, 8)); break;
			default: d.step = r.range(1, 50) * 0.1; break;
			}
			d.off = r.chance(25) ? 0 : d.step * (r.range(-100000, 100000) * 0.37);
		}
		f.dims.push_back(d);
	}
	VarSpec v;
	v.type = usable(BASIC, AG::LONG); v.fileType = ncTypeOf(v.type); v.seed = r.next() | 1; v.fullRange = true; v.cellBytes = typeBytes(v.type);
	f.vars.push_back(v);
	writeFile(f);
	Params p;
	bool vertex = r.chance(50);
	if (vertex) p["VALUE_POSITION"] = r.chance(50) ? "VERTEX_CENTERED" : "vertex-centered";
	else if (r.chance(50)) p["value-position"] = "cell-centered";
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	p["GRID"] = grids[r.below(3)];
	if (r.chance(50)) { Params b = randBlocks(r, f); p.insert(b.begin(), b.end()); }
	std::string cfg = describe(f) + " " + pstr(p);
	for (unsigned n = 0; n < nd; n++) cfg += fmt(" [off=%.17g step=%.17g coord=%d]", f.dims[n].off, f.dims[n].step, f.dims[n].coord);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	setTopology(std::vector<int>(1, 0));

	AG* g = createGrid(v);
	apply(g, p, 0);
	AG::Error e = g->open(f.path.c_str());
	if (e != AG::SUCCESS) { report.fail("open", errName(e)); AG::close(g); return; }
	if (g->getDimensions() != nd) report.fail("dims", fmt("getDimensions=%u expected %u", g->getDimensions(), nd));
	double mn[MAXD], mx[MAXD];
	for (unsigned n = 0; n < nd; n++) {
		const DimSpec& d = f.dims[n];
		mn[n] = g->getMin(n); mx[n] = g->getMax(n);
		double dl = g->getDelta(n);
		double c0 = coordOf(d, 0), c1 = coordOf(d, d.size - 1);
		double st = d.coord ? std::fabs(d.step) : 1;
		if (d.size == 1) {
			if (!(std::isinf(mn[n]) && mn[n] < 0 && std::isinf(mx[n]) && mx[n] > 0))
				report.fail("range-single", fmt("dimension %u of size 1: range [%g,%g]", n, mn[n], mx[n]));
			if (!std::isinf(dl))
				report.fail("delta-single", fmt("dimension %u of size 1: delta %g", n, dl));
			continue;
		}
		double half = vertex ? 0 : 0.5 * st;
		double em = std::min(c0, c1) - half, eM = std::max(c0, c1) + half;
		double scale = st + 1e-6 * std::max(std::fabs(c0), std::fabs(c1));
		if (!closeTo(mn[n], em, scale)) report.fail("min", fmt("getMin(%u)=%.17g expected %.17g", n, mn[n], em));
		if (!closeTo(mx[n], eM, scale)) report.fail("max", fmt("getMax(%u)=%.17g expected %.17g", n, mx[n], eM));
		if (!closeTo(dl, st, scale)) report.fail("delta", fmt("getDelta(%u)=%.17g expected %.17g", n, dl, st));
		report.observe("range_checks", 3);
	}
	// Queries: kinds of position per dimension
	for (int q = 0; q < 150; q++) {
		double pos[MAXD] = { 0 };
		bool inside = true;
		std::vector<size_t> cand[MAXD];
		static const char* kn[] = { "centre", "interior", "boundary", "min", "max", "below", "above", "neartie" };
		std::string kinds;
		for (unsigned n = 0; n < nd; n++) {
			const DimSpec& d = f.dims[n];
			double step = d.coord ? d.step : 1;
			size_t i = r.below(d.size);
			double c = coordOf(d, i);
			int k = r.below(nd > 1 && r.chance(60) ? 3 : 8);
			if (d.size == 1) { pos[n] = r.chance(20) ? 1e200 * (r.chance(50) ? 1 : -1) : r.range(-100000, 100000) * 1.5; cand[n].push_back(0); continue; }
			switch (k) {
			case 0: pos[n] = c; break;
			case 1: pos[n] = c + (r.unit() - 0.5) * 0.999 * step; break;
			case 2: pos[n] = c + 0.5 * step; break;
			case 3: pos[n] = mn[n]; break;
			case 4: pos[n] = mx[n]; break;
			case 5: pos[n] = std::min(coordOf(d, 0), coordOf(d, d.size - 1)) - std::fabs(step) * (0.51 + r.unit() * (r.chance(30) ? 1e7 : 3)); break;
			case 6: pos[n] = std::max(coordOf(d, 0), coordOf(d, d.size - 1)) + std::fabs(step) * (0.51 + r.unit() * (r.chance(30) ? 1e7 : 3)); break;
			case 7: pos[n] = c + (r.chance(50) ? 1 : -1) * (0.5 - std::pow(10.0, -r.range(2, 5))) * step; break;
			}
			kinds += kn[k][0];
			if (k == 2 && i + 1 == d.size && !(k == 3)) { /* may be outside: boundary of the last cell */ }
			long double t = ((long double) pos[n] - (d.coord ? (long double) d.off : 0)) / step;
			if (pos[n] < mn[n] || pos[n] > mx[n]) inside = false;
			long double fl = floorl(t);
			const long double tol = 1e-6L;
			long long lo = (long long) (fl < -1e15L ? -1e15L : (fl > 1e15L ? 1e15L : fl));
			std::set<long long> acc;
			long double fr = t - fl;
			if (fr <= 0.5L + tol) acc.insert(lo);
			if (fr >= 0.5L - tol) acc.insert(lo + 1);
			std::set<size_t> cl;
			for (std::set<long long>::iterator it = acc.begin(); it != acc.end(); ++it)
				cl.insert((size_t) std::min<long long>(std::max<long long>(*it, 0), d.size - 1));
			cand[n].assign(cl.begin(), cl.end());
			report.observe(std::string("pos_") + kn[k]);
		}
		uint64_t w0 = warnings;
		long got = g->getLong(pos);
		uint64_t w1 = warnings;
		// any combination of accepted indices
		bool ok = false;
		size_t comb = 1;
		for (unsigned n = 0; n < nd; n++) comb *= cand[n].size();
		for (size_t c = 0; c < comb && !ok; c++) {
			size_t x = c, idx[MAXD];
			for (unsigned n = 0; n < nd; n++) { idx[n] = cand[n][x % cand[n].size()]; x /= cand[n].size(); }
			ok = got == expectAs<long>(v, f.linear(idx));
		}
		if (!ok)
			report.fail(inside ? "nearest" : "clamp", fmt("pos %s: value %ld is not the value of the nearest cell", posStr(pos, nd).c_str(), got));
		if (inside && w1 != w0)
			report.fail("inrange-warning", fmt("pos %s lies in [getMin,getMax] but is reported as out of range", posStr(pos, nd).c_str()));
		if (comb == 1) report.observe("unambiguous");
		if (!inside) report.observe("outside");
		report.observe("positions");
	}
	AG::close(g);
	unlink(f.path.c_str());
	report.eval(f.cells() > 1 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C03: every type/file type/kind/accessor, edge blocks in 1..4 dimensions
// ---------------------------------------------------------------------------
static void modeTypes(uint64_t cs)
{
	Rng r(cs);
	unsigned nd = 1 + r.below(MAXD);
	FileSpec f = randFile(r, scratchDir() + fmt("/t%d.nc", getpid()), 500, nd);
	// every dimension > 1 with a block size that does not divide it
	Params p;
	for (unsigned n = 0; n < nd; n++) {
		f.dims[n].size = 2 + r.below(nd == 1 ? 60 : (nd == 2 ? 14 : (nd == 3 ? 7 : 5)));
		long b = 1 + r.below(f.dims[n].size);
		if (r.chance(10)) b = -1;
		p[fmt("BLOCK_SIZE_%u", n)] = fmt("%ld", b);
	}
	Kind kind = (Kind) ((cs / 5) % 3);
	AG::Type type = (AG::Type) (cs % 5);
	VarSpec v = randVar(r, kind, type);
	f.vars.push_back(v);
	writeFile(f);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	p["GRID"] = grids[r.below(10) < 4 ? 1 : r.below(3)];
	p["CACHE_SIZE"] = fmt("%ld", r.range(1, 5));
	setTopology(std::vector<int>(1, 0));
	std::string cfg = describe(f) + " " + describe(v) + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(v);
	apply(g, p, 0);
	AG::Error e = g->open(f.path.c_str());
	if (e != AG::SUCCESS) { report.fail("open", errName(e)); AG::close(g); return; }
	if (g->getVarSize() != varBytes(v))
		report.fail("varsize", fmt("getVarSize=%u expected %zu", g->getVarSize(), varBytes(v)));
	static const char* kname[] = { "basic", "array", "struct" };
	for (size_t cell = 0; cell < f.cells(); cell++) {
		size_t idx[MAXD];
		double pos[MAXD];
		f.unlinear(cell, idx);
		for (unsigned n = 0; n < nd; n++) pos[n] = coordOf(f.dims[n], idx[n]);
		std::string m = compareCell(g, f, v, cell, pos, 0, 63);
		report.observe("cells_compared");
		if (!m.empty()) {
			report.fail(fmt("type:%s:%s:%s", kname[kind], typeName(type), m.substr(0, m.find_first_of("= ")).c_str()), fmt("cell %zu: %s", cell, m.c_str()));
			break;
		}
	}
	AG::close(g);
	unlink(f.path.c_str());
	report.observe(fmt("%s_%s", kname[kind], typeName(type)));
	report.eval(cfg);
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C05: block replacement follows the two-handed clock; capacity; no useless reads
// ---------------------------------------------------------------------------
static void modeCache(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/k%d.nc", getpid()), 2000);
	VarSpec v = randVar(r, BASIC, AG::INT);
	f.vars.push_back(v);
	writeFile(f);
	Params p;
	for (unsigned n = 0; n < f.nd(); n++)
		p[fmt("BLOCK_SIZE_%u", n)] = fmt("%ld", 1 + (long) r.below(std::max<size_t>(1, f.dims[n].size / 2)));
	long size = r.chance(20) ? 1 : r.range(1, 24);
	long spread = r.chance(50) ? -1 : r.range(0, r.chance(25) ? size * 3 : size - 1);
	bool dflt = r.chance(10);
	p["GRID"] = "CACHE";
	if (!dflt) p["CACHE-SIZE"] = fmt("%ld", size);
	else size = 128;
	if (spread >= 0 || r.chance(30)) p["CACHE-HAND-SPREAD"] = fmt("%ld", spread);
	setTopology(std::vector<int>(1, 0));
	std::string cfg = describe(f) + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(v);
	apply(g, p, 0);
	AG::Error e = g->open(f.path.c_str());
	if (e != AG::SUCCESS) { report.fail("open", errName(e)); AG::close(g); return; }
	Blocks b(p, f);
	Clock model(size, spread);
	size_t hits = 0, misses = 0, evictions = 0;
	std::vector<size_t> hot;
	for (int i = 0; i < 5; i++) hot.push_back(r.below(f.cells()));
	size_t cur = r.below(f.cells());
	long last = -1;
	for (int q = 0; q < 600; q++) {
		switch (r.below(10)) {
		case 0: case 1: case 2: cur = r.pick(hot); break;
		case 3: cur = r.below(f.cells()); break;
		case 4: break;
		default: cur = (cur + 1 + r.below(b.cells)) % f.cells(); break;
		}
		size_t idx[MAXD];
		double pos[MAXD] = { 0 };
		f.unlinear(cur, idx);
		jitter(r, f, idx, pos);
		uint64_t r0 = readCount();
		unsigned long f0 = g->getCounter("file_loads");
		std::string m = compareCell(g, f, v, cur, pos, 0, 2);
		if (m.empty()) { if (v.fileType == NC_INT64 || true) m = compareCell(g, f, v, cur, pos, 0, 0); }
		uint64_t rd = readCount() - r0;
		unsigned long fl = g->getCounter("file_loads") - f0;
		if (!m.empty()) { report.fail("value", m); break; }
		long blk = (long) b.of(idx), ev;
		if (rd > 1) { report.fail("double-load", fmt("one access read %lu blocks from the file", (unsigned long) rd)); break; }
		if (blk == last && rd != 0) { report.fail("evicts-latest", fmt("block %ld was accessed twice in a row but read again", blk)); break; }
		bool hit = model.access(blk, ev);
		if (hit != (rd == 0)) {
			report.fail("clock", fmt("query %d block %ld: %s, but the two-handed clock with %ld blocks, spread %ld gives a %s", q, blk, rd ? "read from file" : "served from the cache", size, spread, hit ? "hit" : "miss"));
			break;
		}
		if (fl != rd) { report.fail("counter", fmt("file_loads grew by %lu, %lu reads observed", fl, (unsigned long) rd)); break; }
		hit ? hits++ : misses++;
		if (ev >= 0) evictions++;
		last = blk;
	}
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("hits", hits);
	report.observe("misses", misses);
	report.observe("evictions", evictions);
	report.eval(evictions > 0 && hits > 0 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C06: counters
// ---------------------------------------------------------------------------
static void modeCounters(uint64_t cs, bool threadsafe)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/n%d.nc", getpid()), 1500);
	unsigned levels = 1 + r.below(3);
	std::vector<Params> lp(levels);
	for (unsigned l = 0; l < levels; l++) {
		VarSpec v = randVar(r, BASIC, AG::DOUBLE);
		v.name = fmt("lev%u", l);
		f.vars.push_back(v);
		lp[l] = randBlocks(r, f);
		lp[l]["VARIABLE"] = v.name;
		lp[l]["CACHE_SIZE"] = fmt("%ld", r.range(1, 6));
	}
	writeFile(f);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	std::string grid = grids[r.below(3)];
	lp[0]["GRID"] = grid;
	if (r.chance(25)) lp[0]["NUMA_COMMUNICATION"] = r.chance(50) ? "CACHE" : "OFF";
	Topo topo = randTopo(r, 4, 3);
	setTopology(topo.node);
	std::string cfg = describe(f) + fmt(" levels=%u ", levels) + topo.str();
	for (unsigned l = 0; l < levels; l++) cfg += " | " + pstr(lp[l]);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = AG::create(AG::DOUBLE);
	g->setThreads(topo.threads);
	for (unsigned l = 0; l < levels; l++) apply(g, lp[l], l);
	std::vector<AG::Error> errs(topo.threads * levels, AG::SUCCESS);
	// Access phases: one thread at a time unless counters are thread-safe, so that
	// documented inaccuracies of the default counters cannot show up.
	Gate gate(topo.threads);
	std::vector<unsigned long> acc(levels, 0), rdl(levels, 0);
	std::mutex am;
	pthread_mutex_t turn = PTHREAD_MUTEX_INITIALIZER;
	std::string bad;
	uint64_t qs = r.next();
	auto snap = [&](unsigned l, unsigned long* c) {
		static const char* n[] = { "accesses", "numa_transfers", "mpi_transfers", "file_loads", "local_hits", "node_hits", "local_misses" };
		for (int i = 0; i < 7; i++) c[i] = g->getCounter(n[i], l);
	};
	uint64_t opened = 0;
	Team::run(topo.threads, [&](unsigned t) {
		for (unsigned l = 0; l < levels; l++)
			errs[t * levels + l] = g->open(f.path.c_str(), l);
		gate.wait();
		if (t == 0) {
			for (unsigned l = 0; l < levels; l++) {
				unsigned long c[7];
				snap(l, c);
				for (int i = 0; i < 7; i++)
					if (c[i] != 0) bad = fmt("counter %d of level %u is %lu right after open", i, l, c[i]);
			}
			opened = readCount();
		}
		gate.wait();
		Rng q(qs + t);
		for (int i = 0; i < 120; i++) {
			unsigned l = q.below(levels);
			size_t cell = q.below(f.cells()), idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(cell, idx);
			jitter(q, f, idx, pos);
			if (threadsafe) {
				g->getDouble(pos, l);
				std::lock_guard<std::mutex> lk(am);
				acc[l]++;
			} else {
				pthread_mutex_lock(&turn);
				std::vector<unsigned long> before(levels * 7), after(levels * 7);
				for (unsigned k = 0; k < levels; k++) snap(k, &before[k * 7]);
				uint64_t r0 = readCount();
				g->getDouble(pos, l);
				uint64_t rd = readCount() - r0;
				for (unsigned k = 0; k < levels; k++) snap(k, &after[k * 7]);
				acc[l]++;
				rdl[l] += rd;
				for (unsigned k = 0; k < levels && bad.empty(); k++) {
					long d[7];
					for (int j = 0; j < 7; j++) d[j] = (long) (after[k * 7 + j] - before[k * 7 + j]);
					if (k != l) {
						for (int j = 0; j < 7; j++) if (d[j]) bad = fmt("access on level %u changed counter %d of level %u", l, j, k);
						continue;
					}
					if (d[0] != 1) bad = fmt("accesses grew by %ld for one access on level %u", d[0], l);
					else if (d[1] + d[2] + d[3] > 1) bad = fmt("one access counted as numa=%ld mpi=%ld file=%ld", d[1], d[2], d[3]);
					else if (d[2] != 0) bad = "mpi_transfers without MPI";
					else if ((uint64_t) d[3] != rd) bad = fmt("file_loads grew by %ld, %lu file reads observed", d[3], (unsigned long) rd);
					else if (d[4] + d[6] != 1) bad = fmt("local_hits+local_misses grew by %ld+%ld for one access", d[4], d[6]);
					else if (d[6] != d[1] + d[2] + d[3]) bad = "local_misses != numa+mpi+file";
					else if (d[5] != 1 - d[2] - d[3]) bad = "node_hits != accesses-mpi-file";
				}
				pthread_mutex_unlock(&turn);
			}
		}
	});
	for (size_t i = 0; i < errs.size(); i++)
		if (errs[i] != AG::SUCCESS) report.fail("open", errName(errs[i]));
	if (!bad.empty()) report.fail("counter-step", bad);
	if (grid == "FULL" && readCount() != opened) report.fail("full-reads-file", "FULL grid read the file after open");
	uint64_t rdTotal = 0, flTotal = 0;
	for (unsigned l = 0; l < levels; l++) {
		unsigned long c[7];
		snap(l, c);
		if (c[0] != acc[l]) report.fail("accesses", fmt("level %u: accesses=%lu, %lu calls made", l, c[0], acc[l]));
		if (c[4] + c[6] != c[0]) report.fail("conservation", fmt("level %u: hits %lu + misses %lu != accesses %lu", l, c[4], c[6], c[0]));
		if (c[1] + c[2] + c[3] != c[6]) report.fail("conservation", fmt("level %u: misses", l));
		if (c[5] + c[2] + c[3] != c[0]) report.fail("conservation", fmt("level %u: node hits", l));
		flTotal += c[3];
		if (topo.domains() > 1 && c[1]) report.observe("numa_transfers", c[1]);
		report.observe("file_loads", c[3]);
		report.observe("accesses", c[0]);
	}
	rdTotal = readCount() - opened;
	if (flTotal != rdTotal) report.fail("file-loads-total", fmt("sum of file_loads over all levels %lu, reads observed %lu", (unsigned long) flTotal, (unsigned long) rdTotal));
	if (g->getCounter("no_such_counter") != 0) report.fail("unknown-counter", "unknown counter is not 0");
	AG::close(g);
	unlink(f.path.c_str());
	report.eval(cfg);
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C14: levels are independent, may be opened in any order and from several files
// ---------------------------------------------------------------------------
static void modeLevels(uint64_t cs)
{
	Rng r(cs);
	unsigned levels = r.chance(6) ? 8 + r.below(14) : 1 + r.below(5);
	unsigned nd = 1 + r.below(std::min(3, (int) MAXD));
	std::vector<FileSpec> fs(levels);
	std::vector<Params> lp(levels);
	Kind kind = (Kind) r.below(3);
	VarSpec base = randVar(r, kind, (AG::Type) r.below(5));
	std::vector<int> shared(levels, -1);
	for (unsigned l = 0; l < levels; l++) {
		VarSpec v = base;
		v.seed = r.next() | 1;
		v.name = r.chance(50) ? fmt("lev%u", l) : std::string("z");
		if (l > 0 && r.chance(35)) {
			// a second variable in the file of another level
			unsigned o = r.below(l);
			while (shared[o] >= 0) o = shared[o];
			v.name = fmt("lev%u", l);
			fs[o].vars.push_back(v);
			shared[l] = o;
		} else {
			fs[l] = randFile(r, scratchDir() + fmt("/l%d_%u.nc", getpid(), l), 600, nd);
			fs[l].vars.push_back(v);
		}
	}
	std::vector<VarSpec> vs(levels);
	for (unsigned l = 0; l < levels; l++) {
		unsigned o = shared[l] >= 0 ? shared[l] : l;
		for (size_t k = 0; k < fs[o].vars.size(); k++)
			if ((shared[l] < 0 && k == 0) || (shared[l] >= 0 && fs[o].vars[k].name == fmt("lev%u", l))) vs[l] = fs[o].vars[k];
		lp[l] = randBlocks(r, fs[o]);
		lp[l]["VARIABLE"] = vs[l].name;
		if (r.chance(70)) lp[l]["CACHE_SIZE"] = fmt("%ld", r.range(1, 8));
	}
	for (unsigned l = 0; l < levels; l++) if (shared[l] < 0) writeFile(fs[l]);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	std::string grid = grids[r.below(3)];
	lp[0]["GRID"] = grid;
	Topo topo = randTopo(r, 3, 2);
	setTopology(topo.node);
	std::vector<unsigned> order;
	for (unsigned l = 0; l < levels; l++) order.push_back(l);
	std::string oname = "ascending";
	if (r.chance(60)) { for (unsigned i = levels; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]); oname = "shuffled"; }
	std::string cfg = fmt("levels=%u grid=%s ", levels, grid.c_str()) + topo.str() + " order=";
	for (unsigned l = 0; l < levels; l++) cfg += fmt("%u", order[l]);
	for (unsigned l = 0; l < levels; l++) cfg += " | " + describe(fs[shared[l] >= 0 ? shared[l] : l]) + " " + pstr(lp[l]);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(base);
	g->setThreads(topo.threads);
	for (unsigned l = 0; l < levels; l++) apply(g, lp[l], l);
	std::vector<std::string> bad(topo.threads);
	uint64_t qs = r.next();
	bool interleave = r.chance(60);
	Team::run(topo.threads, [&](unsigned t) {
		Rng q(qs + t);
		std::vector<double> range; // of level 0, as soon as it is open
		for (unsigned k = 0; k < levels; k++) {
			unsigned fi = shared[order[k]] >= 0 ? shared[order[k]] : order[k];
			AG::Error e = g->open(fs[fi].path.c_str(), order[k]);
			if (e != AG::SUCCESS) { bad[t] = fmt("open of level %u: %s", order[k], errName(e)); return; }
			if (order[k] == 0 || !range.empty()) {
				std::vector<double> now(1, g->getDimensions());
				for (unsigned n = 0; n < nd; n++) { now.push_back(g->getMin(n)); now.push_back(g->getMax(n)); }
				if (range.empty()) range = now;
				for (size_t i = 0; i < now.size(); i++)
					if (memcmp(&now[i], &range[i], sizeof(double)))
						bad[t] = fmt("opening level %u changed %s from %g to %g", order[k], i ? (i % 2 ? "getMin" : "getMax") : "getDimensions", range[i], now[i]);
				if (!bad[t].empty()) return;
			}
			if (!interleave && k + 1 < levels) continue;
			// every level opened so far keeps answering for its own data
			for (int i = 0; i < 30 && bad[t].empty(); i++) {
				unsigned l = order[q.below(k + 1)];
				const FileSpec& f = fs[shared[l] >= 0 ? shared[l] : l];
				size_t cell = q.below(f.cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				f.unlinear(cell, idx);
				jitter(q, f, idx, pos);
				std::string m = compareCell(g, f, vs[l], cell, pos, l, 32 | (1u << q.below(5)));
				if (!m.empty()) bad[t] = fmt("level %u after opening %u levels, cell %zu: %s", l, k + 1, cell, m.c_str());
			}
			for (unsigned j = 0; j <= k && bad[t].empty(); j++) {
				unsigned l = order[j];
				const FileSpec& f = fs[shared[l] >= 0 ? shared[l] : l];
				for (unsigned n = 0; n < nd; n++) {
					double d = g->getDelta(n, l), e2 = f.dims[n].size == 1 ? std::numeric_limits<double>::infinity() : (f.dims[n].coord ? std::fabs(f.dims[n].step) : 1);
					if (!(d == e2) && !(std::fabs(d - e2) < 1e-9 * (std::fabs(e2) + std::fabs(f.dims[n].off))))
						bad[t] = fmt("getDelta(%u, level %u)=%g expected %g", n, l, d, e2);
				}
			}
		}
	});
	for (unsigned t = 0; t < topo.threads; t++)
		if (!bad[t].empty()) { report.fail("levels:" + grid, bad[t]); break; }
	AG::close(g);
	for (unsigned l = 0; l < levels; l++) if (shared[l] < 0) unlink(fs[l].path.c_str());
	report.observe("levels_opened", levels);
	report.observe("order_" + oname);
	report.eval(levels > 1 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C15: parameters (spelling, precedence, blocks, time dimension, fallbacks)
// ---------------------------------------------------------------------------
static std::string respell(Rng& r, const std::string& s)
{
	std::string o = s;
	int k = r.below(4);
	for (size_t i = 0; i < o.size(); i++) {
		if (k == 1 || (k == 3 && r.chance(50))) o[i] = tolower(o[i]);
		if (o[i] == '_' && (k == 2 || (k >= 1 && r.chance(50)))) o[i] = '-';
	}
	return o;
}

static void modeParams(uint64_t cs)
{
	Rng r(cs);
	unsigned nd = 1 + r.below(MAXD);
	FileSpec f = randFile(r, scratchDir() + fmt("/p%d.nc", getpid()), 2000, nd);
	for (unsigned n = 0; n < nd; n++)
		if (f.dims[n].size == 1) f.dims[n].size = nd > 4 ? 2 : 2 + r.below(3);
	if (r.chance(40)) { f.dims[0].size = 65 + r.below(140); for (unsigned n = 1; n < nd; n++) f.dims[n].size = nd > 4 ? 2 : 2 + r.below(3); }
	VarSpec v = randVar(r, BASIC, AG::DOUBLE), w = v;
	v.name = "z";
	w.name = r.chance(50) ? "MixedCase_Var-1" : "block";
	w.seed ^= 0x1234567;
	f.vars.push_back(v);
	f.vars.push_back(w);
	writeFile(f);
	int timeDim = r.chance(60) ? (int) r.below(nd) : -1;
	bool second = r.chance(50);
	// requested block sizes
	std::vector<long> bs(nd, 0);
	Params eff;
	for (unsigned n = 0; n < nd; n++) {
		int k = r.below(5);
		if (k == 0) bs[n] = -(long) (1 + r.below(5));
		else if (k == 1) bs[n] = f.dims[n].size + 1 + r.below(100);
		else if (k == 2) bs[n] = 1 + r.below(f.dims[n].size);
		if (bs[n]) eff[fmt("BLOCK_SIZE_%u", n)] = fmt("%ld", bs[n]);
	}
	setTopology(std::vector<int>(1, 0));
	AG* g = createGrid(v);
	std::string cfg = describe(f) + fmt(" time=%d var=%s ", timeDim, second ? w.name.c_str() : "z") + pstr(eff);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	// overwritten settings: the last value counts
	if (r.chance(50)) g->setParam(respell(r, "GRID").c_str(), "FULL");
	if (r.chance(50)) g->setParam(respell(r, "VARIABLE").c_str(), "nonexistent");
	else second = second || false;
	std::string gridVal = respell(r, "CACHE");
	g->setParam(respell(r, "GRID").c_str(), gridVal.c_str());
	g->setParam(respell(r, "VARIABLE").c_str(), second ? w.name.c_str() : "z");
	g->setParam(respell(r, "CACHE_SIZE").c_str(), "100"); // never replaces anything: fewer accesses
	if (timeDim >= 0 || r.chance(30)) g->setParam(respell(r, "TIME_DIMENSION").c_str(), fmt("%d", timeDim).c_str());
	for (unsigned n = 0; n < nd; n++)
		if (bs[n]) {
			if (r.chance(30)) g->setParam(respell(r, fmt("BLOCK_SIZE_%u", n)).c_str(), "3");
			g->setParam(respell(r, fmt("BLOCK_SIZE_%u", n)).c_str(), fmt("%ld", bs[n]).c_str());
		}
	// parameters of other levels must not leak into level 0
	g->setParam("VARIABLE", "nonexistent", 1);
	g->setParam("BLOCK_SIZE_0", "2", 1);
	g->setParam("CACHE_SIZE", "1", 2);
	AG::Error e = g->open(f.path.c_str());
	if (e != AG::SUCCESS) {
		report.fail("open", fmt("open returned %s", errName(e)));
		AG::close(g);
		return;
	}
	Blocks b(eff, f, timeDim);
	readLogEnable(true);
	std::set<size_t> loaded;
	const VarSpec& var = second ? w : v;
	for (int q = 0; q < 80; q++) {
		size_t cell = r.below(f.cells()), idx[MAXD];
		double pos[MAXD] = { 0 };
		f.unlinear(cell, idx);
		jitter(r, f, idx, pos);
		readLogClear();
		std::string m = compareCell(g, f, var, cell, pos, 0, 16);
		if (!m.empty()) { report.fail(second ? "variable" : "value", m); break; }
		std::vector<ReadEvent> log = readLog();
		bool first = loaded.insert(b.of(idx)).second;
		if (log.size() != (first ? 1u : 0u)) {
			report.fail("block-membership", fmt("cell %zu: %zu reads, expected %d with the requested block sizes", cell, log.size(), first ? 1 : 0));
			break;
		}
		if (first) {
			// the block read is exactly the aligned block of the requested extent
			for (unsigned n = 0; n < nd; n++) {
				size_t fi = nd - n - 1; // file order
				size_t es = idx[n] / b.bs[n] * b.bs[n];
				size_t ec = std::min(b.bs[n], f.dims[n].size - es);
				if (log[0].start[fi] != es || log[0].count[fi] != ec) {
					report.fail(timeDim == (int) n && bs[n] == 0 ? "time-block" : "block-extent", fmt("dimension %u: read [%zu,+%zu), expected [%zu,+%zu)", n, log[0].start[fi], log[0].count[fi], es, ec));
					q = 1000;
					break;
				}
			}
			report.observe("blocks_read");
		}
	}
	readLogEnable(false);
	AG::close(g);
	unlink(f.path.c_str());
	if (timeDim >= 0 && !bs[timeDim]) report.observe("time_dimension_default");
	report.eval(b.total > 1 ? cfg : "");
	report.sample(cfg);
}

/** Invalid values fall back to the documented default with a warning, never to something else */
/** Levels with settings of their own: every level has its own cache with its own size, hands and blocks */
static void modeLevelCache(uint64_t cs)
{
	Rng r(cs ^ 0x1e7e1);
	unsigned levels = 2 + r.below(3), nd = 1 + r.below(std::min(2, (int) MAXD));
	bool oneFile = r.chance(40);
	std::vector<FileSpec> f(levels);
	std::vector<Params> p(levels);
	std::vector<VarSpec> v(levels);
	std::vector<Blocks> b;
	std::vector<Clock> model;
	std::string cfg = oneFile ? "one file" : "a file each";
	VarSpec base = randVar(r, BASIC, AG::INT);
	for (unsigned l = 0; l < levels; l++) {
		v[l] = base;
		v[l].seed = r.next() | 1;
		v[l].name = fmt("lev%u", l);
		if (l == 0 || !oneFile) f[l] = randFile(r, scratchDir() + fmt("/lc%d_%u.nc", getpid(), l), 1500, nd);
		f[oneFile ? 0 : l].vars.push_back(v[l]);
	}
	for (unsigned l = 0; l < levels; l++) {
		if (oneFile && l) { f[l] = f[0]; f[l].vars.clear(); f[l].vars.push_back(v[l]); }
		else writeFile(f[l]);
		p[l]["VARIABLE"] = v[l].name;
		for (unsigned n = 0; n < nd; n++)
			if (r.chance(85)) p[l][fmt("BLOCK_SIZE_%u", n)] = fmt("%ld", 1 + (long) r.below(std::max<size_t>(1, f[l].dims[n].size / 3)));
		long size = 128, spread = -1;
		if (r.chance(85)) { size = r.range(1, 9); p[l]["CACHE_SIZE"] = fmt("%ld", size); }
		if (r.chance(60)) { spread = r.range(-1, size - 1); p[l]["CACHE_HAND_SPREAD"] = fmt("%ld", spread); }
		b.push_back(Blocks(p[l], f[l]));
		model.push_back(Clock(size, spread));
		cfg += fmt(" | level %u: ", l) + describe(f[l]) + " " + pstr(p[l]);
	}
	setTopology(std::vector<int>(1, 0));
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(base);
	g->setParam("GRID", "CACHE");
	std::vector<unsigned> order;
	for (unsigned l = 0; l < levels; l++) order.push_back(l);
	for (unsigned i = levels; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	for (unsigned i = 0; i < levels; i++) apply(g, p[order[i]], order[i]);
	for (unsigned i = levels; i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	for (unsigned i = 0; i < levels; i++)
		if (g->open(f[order[i]].path.c_str(), order[i]) != AG::SUCCESS) { report.fail("open", fmt("level %u", order[i])); AG::close(g); return; }
	size_t evictions = 0;
	std::vector<size_t> cur(levels, 0);
	std::vector<unsigned long> loads(levels, 0);
	bool ok = true;
	for (int q = 0; q < 500 && ok; q++) {
		unsigned l = r.below(levels);
		cur[l] = r.chance(25) ? r.below(f[l].cells()) : (cur[l] + 1 + r.below(b[l].cells)) % f[l].cells();
		size_t idx[MAXD];
		double pos[MAXD] = { 0 };
		f[l].unlinear(cur[l], idx);
		jitter(r, f[l], idx, pos);
		uint64_t r0 = readCount();
		std::string m = compareCell(g, f[l], v[l], cur[l], pos, l, 2);
		uint64_t rd = readCount() - r0;
		long ev;
		bool hit = model[l].access((long) b[l].of(idx), ev);
		if (!m.empty()) { report.fail("value", fmt("level %u: ", l) + m); ok = false; }
		else if (rd != (hit ? 0u : 1u)) {
			report.fail("level-settings", fmt("level %u, query %d: %lu blocks read, but with the settings of this level it is a %s", l, q, (unsigned long) rd, hit ? "hit" : "miss"));
			ok = false;
		}
		loads[l] += hit ? 0 : 1;
		evictions += ev >= 0;
	}
	for (unsigned l = 0; l < levels && ok; l++)
		if (g->getCounter("file_loads", l) != loads[l]) {
			report.fail("level-counter", fmt("level %u: file_loads=%lu, %lu blocks read", l, g->getCounter("file_loads", l), loads[l]));
			ok = false;
		}
	AG::close(g);
	for (unsigned l = 0; l < (oneFile ? 1 : levels); l++) unlink(f[l].path.c_str());
	report.observe("evictions_in_levels", evictions);
	report.eval(evictions > 0 ? cfg : "");
	report.sample(cfg);
}

static void modeParamFallback(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/q%d.nc", getpid()), 300);
	VarSpec v = randVar(r, BASIC, AG::INT);
	f.vars.push_back(v);
	writeFile(f);
	setTopology(std::vector<int>(1, 0));
	int k = r.below(4);
	AG* g = createGrid(v);
	report.context(fmt("case=%llu fallback %d %s", (unsigned long long) cs, k, describe(f).c_str()));
	uint64_t w0 = warnings;
	switch (k) {
	case 0: g->setParam("GRID", "NONSENSE"); break;
	case 1: g->setParam("VALUE_POSITION", "SOMEWHERE"); break;
	case 2: g->setParam("TIME_DIMENSION", fmt("%u", f.nd() + (unsigned) r.below(3)).c_str()); break;
	case 3: break;
	}
	AG::Error e = g->open(f.path.c_str());
	if (e != AG::SUCCESS) { report.fail("open", errName(e)); AG::close(g); return; }
	if (k < 3 && warnings == w0) report.fail("no-warning", "invalid parameter value accepted silently");
	if (k == 3 && warnings != w0) report.fail("spurious-warning", "valid configuration produced a warning");
	uint64_t r0 = readCount();
	for (int q = 0; q < 40; q++) {
		size_t cell = r.below(f.cells()), idx[MAXD];
		double pos[MAXD] = { 0 };
		f.unlinear(cell, idx);
		jitter(r, f, idx, pos);
		std::string m = compareCell(g, f, v, cell, pos, 0, 2);
		if (!m.empty()) { report.fail("fallback-value", m); break; }
	}
	if (readCount() != r0) report.fail("fallback-grid", "default grid type is FULL but the file was read after open");
	for (unsigned n = 0; n < f.nd(); n++)
		if (f.dims[n].size > 1) {
			double st = f.dims[n].coord ? std::fabs(f.dims[n].step) : 1;
			double e2 = std::min(coordOf(f.dims[n], 0), coordOf(f.dims[n], f.dims[n].size - 1)) - 0.5 * st;
			if (std::fabs(g->getMin(n) - e2) > 1e-6 * st + 1e-9 * std::fabs(e2)) report.fail("fallback-position", fmt("getMin(%u)=%g expected %g", n, g->getMin(n), e2));
		}
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("fallbacks");
	report.eval(fmt("fallback %d ", k) + describe(f));
}

// ---------------------------------------------------------------------------
// C16: a FULL grid distributes every block to exactly one NUMA domain
// ---------------------------------------------------------------------------
static void modeBlocks(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/b%d.nc", getpid()), 3000);
	VarSpec v = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
	f.vars.push_back(v);
	writeFile(f);
	Params p = randBlocks(r, f);
	p["GRID"] = "FULL";
	p["CACHE_SIZE"] = fmt("%ld", r.range(1, 8));
	if (r.chance(30)) p["NUMA_COMMUNICATION"] = r.chance(60) ? "CACHE" : "OFF";
	Topo topo = randTopo(r, 8, 6);
	setTopology(topo.node);
	Blocks b(p, f);
	std::string cfg = describe(f) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(v);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	readLogClear();
	readLogEnable(true);
	std::vector<AG::Error> errs(topo.threads);
	std::vector<std::string> bad(topo.threads);
	Gate gate(topo.threads);
	uint64_t after = 0;
	uint64_t qs = r.next();
	Team::run(topo.threads, [&](unsigned t) {
		errs[t] = g->open(f.path.c_str());
		gate.wait();
		if (t == 0) { after = readCount(); readLogEnable(false); }
		gate.wait();
		if (errs[t] != AG::SUCCESS) return;
		Rng q(qs + t);
		for (int i = 0; i < 60 && bad[t].empty(); i++) {
			size_t cell = q.below(f.cells()), idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(cell, idx);
			jitter(q, f, idx, pos);
			bad[t] = compareCell(g, f, v, cell, pos, 0, 32);
		}
	});
	for (unsigned t = 0; t < topo.threads; t++) {
		if (errs[t] != AG::SUCCESS) report.fail("open", errName(errs[t]));
		if (!bad[t].empty()) report.fail("value", bad[t]);
	}
	if (readCount() != after) report.fail("reads-after-open", "FULL grid read the file after open");
	std::vector<ReadEvent> log = readLog();
	std::vector<unsigned char> cover(f.cells(), 0);
	std::map<unsigned, size_t> perThread;
	for (size_t i = 0; i < log.size(); i++) {
		const ReadEvent& e = log[i];
		perThread[e.thread]++;
		size_t n = 1;
		for (size_t k = 0; k < e.count.size(); k++) n *= e.count[k];
		for (size_t c = 0; c < n; c++) {
			size_t x = c, l = 0, m = 1;
			// file order, last dimension fastest
			for (int k = e.count.size() - 1; k >= 0; k--) {
				size_t pos = e.start[k] + x % e.count[k];
				x /= e.count[k];
				l += pos * m;
				m *= f.dims[f.nd() - k - 1].size;
			}
			if (l >= cover.size()) { report.fail("outside", "read outside of the grid"); break; }
			if (cover[l] < 255) cover[l]++;
		}
	}
	size_t zero = 0, twice = 0;
	for (size_t i = 0; i < cover.size(); i++) { zero += cover[i] == 0; twice += cover[i] > 1; }
	if (zero) report.fail("not-loaded", fmt("%zu cells were never loaded", zero));
	if (twice) report.fail("loaded-twice", fmt("%zu cells were loaded more than once", twice));
	unsigned dom = p.count("NUMA_COMMUNICATION") && p["NUMA_COMMUNICATION"] == "OFF" ? 1 : topo.domains();
	size_t share = (b.total + dom - 1) / dom;
	if (log.size() != b.total) report.fail("block-count", fmt("%zu block reads for %zu blocks", log.size(), b.total));
	for (std::map<unsigned, size_t>::iterator i = perThread.begin(); i != perThread.end(); ++i)
		if (i->second > share) report.fail("share", fmt("one of %u domains loaded %zu blocks, at most %zu expected", dom, i->second, share));
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("block_reads", log.size());
	report.observe(fmt("domains_%u", dom));
	report.eval(b.total > 1 && dom > 1 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C23: node-local copies are preferred to the file
// ---------------------------------------------------------------------------
static void modeNuma(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/m%d.nc", getpid()), 1500);
	VarSpec v = randVar(r, BASIC, AG::INT);
	f.vars.push_back(v);
	writeFile(f);
	Params p = randBlocks(r, f);
	bool cacheGrid = r.chance(60);
	p["GRID"] = cacheGrid ? "CACHE" : "FULL";
	long size = r.range(1, 10);
	p["CACHE_SIZE"] = fmt("%ld", size);
	if (r.chance(40)) p["NUMA_COMMUNICATION"] = cacheGrid || r.chance(50) ? "ON" : "CACHE";
	// one thread per domain plus some more; accesses are strictly sequential
	Topo topo;
	unsigned dom = 2 + r.below(3);
	topo.threads = dom + r.below(3);
	for (unsigned i = 0; i < topo.threads; i++) topo.node.push_back(i < dom ? i : r.below(dom));
	setTopology(topo.node);
	std::string cfg = describe(f) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	Blocks b(p, f);
	AG* g = createGrid(v);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	readLogClear();
	readLogEnable(true);
	std::vector<AG::Error> errs(topo.threads, AG::SUCCESS);
	std::string bad, key;
	Gate gate(topo.threads);
	std::vector<Clock> model(dom, Clock(size, -1));
	std::vector<long> homeNode(b.total, -1);
	uint64_t qs = r.next(), numa = 0, file = 0, hit = 0;
	// a common random schedule of (thread, cell)
	std::vector<std::pair<unsigned, size_t> > sched;
	size_t cell = 0;
	for (int i = 0; i < 250; i++) {
		if (r.chance(60)) cell = r.below(f.cells());
		sched.push_back(std::make_pair(r.below(topo.threads), cell));
	}
	Team::run(topo.threads, [&](unsigned t) {
		errs[t] = g->open(f.path.c_str());
		gate.wait();
		if (t == 0) {
			std::vector<ReadEvent> log = readLog();
			for (size_t i = 0; i < log.size(); i++) {
				size_t idx[MAXD];
				for (unsigned n = 0; n < f.nd(); n++) idx[n] = log[i].start[f.nd() - n - 1];
				homeNode[b.of(idx)] = topo.node[log[i].thread];
			}
			readLogEnable(false);
		}
		gate.wait();
		Rng q(qs + t);
		for (size_t i = 0; i < sched.size(); i++) {
			if (sched[i].first == t && errs[t] == AG::SUCCESS && bad.empty()) {
				size_t idx[MAXD];
				double pos[MAXD] = { 0 };
				f.unlinear(sched[i].second, idx);
				jitter(q, f, idx, pos);
				uint64_t r0 = readCount();
				unsigned long n0 = g->getCounter("numa_transfers"), f0 = g->getCounter("file_loads");
				bad = compareCell(g, f, v, sched[i].second, pos, 0, 2);
				long rd = readCount() - r0, nt = g->getCounter("numa_transfers") - n0, fl = g->getCounter("file_loads") - f0;
				key = "value";
				long blk = b.of(idx), ev;
				unsigned d = topo.node[t];
				if (bad.empty()) {
					key = cacheGrid ? "cache" : "full";
					long en = 0, ef = 0;
					if (cacheGrid) {
						bool elsewhere = false;
						for (unsigned k = 0; k < dom; k++) if (k != d && model[k].where.count(blk)) elsewhere = true;
						if (!model[d].access(blk, ev)) { if (elsewhere) en = 1; else ef = 1; }
						else hit++;
					} else if (homeNode[blk] != (long) d) {
						if (!model[d].access(blk, ev)) en = 1; else hit++;
					}
					numa += en; file += ef;
					if (rd != ef || fl != ef) bad = fmt("step %zu: thread %u (node %u) block %ld: %ld file reads (file_loads +%ld), expected %ld", i, t, d, blk, rd, fl, ef);
					else if (nt != en) bad = fmt("step %zu: thread %u (node %u) block %ld: numa_transfers +%ld, expected %ld", i, t, d, blk, nt, en);
				}
			}
			gate.wait();
		}
	});
	for (unsigned t = 0; t < topo.threads; t++) if (errs[t] != AG::SUCCESS) report.fail("open", errName(errs[t]));
	if (!bad.empty()) report.fail("numa:" + key, bad);
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("numa_transfers", numa);
	report.observe("file_loads", file);
	report.observe("local_hits", hit);
	report.eval(numa > 0 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C24: pass-through performs exactly one single-cell read per access
// ---------------------------------------------------------------------------
static void modePass(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/s%d.nc", getpid()), 1000);
	VarSpec v = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
	f.vars.push_back(v);
	writeFile(f);
	Params p = randBlocks(r, f);
	p["GRID"] = r.chance(50) ? "PASS-THROUGH" : "pass_through";
	Topo topo = randTopo(r, 8, 3);
	setTopology(topo.node);
	std::string cfg = describe(f) + " " + describe(v) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(v);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	std::vector<AG::Error> errs(topo.threads);
	std::vector<std::string> bad(topo.threads);
	Gate gate(topo.threads);
	uint64_t qs = r.next(), r0 = 0;
	readLogClear();
	readLogEnable(true);
	perturb(10, 50, qs);
	std::vector<std::vector<std::pair<size_t, size_t> > > mine(topo.threads); // (cell, dummy)
	Team::run(topo.threads, [&](unsigned t) {
		errs[t] = g->open(f.path.c_str());
		gate.wait();
		if (t == 0) { r0 = readCount(); if (!readLog().empty()) bad[0] = "open of a pass-through grid read data"; readLogClear(); }
		gate.wait();
		if (errs[t] != AG::SUCCESS) return;
		Rng q(qs + t);
		for (int i = 0; i < 40 && bad[t].empty(); i++) {
			size_t cell = q.chance(30) && !mine[t].empty() ? mine[t].back().first : q.below(f.cells()), idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(cell, idx);
			jitter(q, f, idx, pos);
			bad[t] = compareCell(g, f, v, cell, pos, 0, 32);
			mine[t].push_back(std::make_pair(cell, 0));
		}
	});
	perturb(0, 0, 0);
	readLogEnable(false);
	size_t total = 0;
	for (unsigned t = 0; t < topo.threads; t++) {
		if (errs[t] != AG::SUCCESS) report.fail("open", errName(errs[t]));
		if (!bad[t].empty()) report.fail("value", bad[t]);
		total += mine[t].size();
	}
	std::vector<ReadEvent> log = readLog();
	if (log.size() != total) report.fail("reads", fmt("%zu accesses caused %zu reads", total, log.size()));
	std::map<unsigned, size_t> next;
	for (size_t i = 0; i < log.size(); i++) {
		const ReadEvent& e = log[i];
		size_t n = 1, idx[MAXD];
		for (size_t k = 0; k < e.count.size(); k++) n *= e.count[k];
		if (n != 1) { report.fail("read-size", fmt("an access read %zu cells", n)); break; }
		for (unsigned k = 0; k < f.nd(); k++) idx[k] = e.start[f.nd() - k - 1];
		size_t& at = next[e.thread];
		if (at < mine[e.thread].size() && mine[e.thread][at].first != f.linear(idx)) { report.fail("read-cell", "an access read another cell"); break; }
		at++;
	}
	unsigned long ac = g->getCounter("accesses"), fl = g->getCounter("file_loads");
	if (topo.threads == 1 && (ac != total || fl != total)) report.fail("counter", fmt("accesses=%lu file_loads=%lu for %zu accesses", ac, fl, total));
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("single_cell_reads", log.size());
	report.eval(f.cells() > 1 ? cfg : "");
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C13: errors
// ---------------------------------------------------------------------------
static void modeErrors(uint64_t cs)
{
	Rng r(cs);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	std::string grid = grids[r.below(3)];
	Topo topo = randTopo(r, 4, 3);
	setTopology(topo.node);
	int k = cs % 8;
	std::string dir = scratchDir();
	FileSpec f = randFile(r, dir + fmt("/e%d.nc", getpid()), 400, 1 + r.below(MAXD));
	Kind kind = (Kind) r.below(3);
	VarSpec v = randVar(r, kind, (AG::Type) r.below(5));
	Params p;
	p["GRID"] = grid;
	AG::Error expect = AG::SUCCESS;
	std::string path = f.path, name;
	bool second = false;
	FileSpec f2;
	switch (k) {
	case 0: name = "missing-file"; path = dir + "/does-not-exist.nc"; expect = AG::NOT_OPEN; f.vars.push_back(v); break;
	case 1: name = "not-netcdf"; expect = AG::NOT_OPEN; break;
	case 2: name = "missing-variable"; f.vars.push_back(v); p["VARIABLE"] = r.chance(50) ? "nope" : "Z"; expect = AG::VAR_NOT_FOUND; break;
	case 3: {
		name = "too-many-dimensions";
		unsigned n = MAXD + 1 + r.below(2);
		f = FileSpec();
		f.path = path;
		for (unsigned i = 0; i < n; i++) { DimSpec d; d.size = 1 + r.below(3); f.dims.push_back(d); }
		f.vars.push_back(v);
		expect = AG::UNSUPPORTED_DIMENSIONS;
		break;
	}
	case 4: {
		// array element type does not divide the cell
		name = "array-size-mismatch";
		v = VarSpec();
		v.kind = STRUCT;
		Member m = { AG::BYTE, (unsigned) (r.chance(50) ? 3 : 13), 0 };
		v.members.push_back(m);
		v.type = AG::BYTE;
		v.cellBytes = m.count;
		v.seed = r.next();
		f.vars.push_back(v);
		expect = AG::INVALID_VAR_SIZE;
		break;
	}
	case 5: {
		// second level stores cells of another size
		name = "second-level-size";
		if (v.kind == BASIC) v = randVar(r, ARRAY, v.type);
		second = true;
		f2 = randFile(r, dir + fmt("/e%d_2.nc", getpid()), 100, f.nd());
		VarSpec w = v;
		if (w.kind == ARRAY) { w.arrayLen += 1 + r.below(3); w.cellBytes = w.arrayLen * typeBytes(w.type); }
		else { Member m = { AG::DOUBLE, 1, (w.cellBytes + 7) / 8 * 8 }; w.members.push_back(m); w.cellBytes = m.disp + 8; }
		// larger or smaller ones
		if (r.chance(50)) std::swap(v, w);
		f.vars.push_back(v);
		f2.vars.push_back(w);
		expect = AG::WRONG_SIZE;
		break;
	}
	case 6: name = "directory"; path = dir; expect = AG::NOT_OPEN; f.vars.push_back(v); break;
	case 7: name = "ok"; f.vars.push_back(v); break;
	}
	if (k == 1) { FILE* o = fopen(f.path.c_str(), "w"); fprintf(o, "not a netCDF file %lu", (unsigned long) r.next()); fclose(o); }
	else writeFile(f);
	if (second) writeFile(f2);
	std::string cfg = name + " grid=" + grid + " " + topo.str() + " " + describe(f);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = k == 4 ? AG::createArray(usable(ARRAY, r.chance(50) ? AG::INT : AG::DOUBLE)) : createGrid(v);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	std::vector<AG::Error> e0(topo.threads, AG::SUCCESS), e1(topo.threads, AG::SUCCESS), e2(topo.threads, AG::SUCCESS);
	std::vector<std::string> bad(topo.threads);
	bool retry = !second && k != 7 && k != 1 && k != 4 && r.chance(60) && k != 3;
	uint64_t qs = r.next();
	uint64_t o0 = openCount(), c0 = closeCount();
	Gate gate(topo.threads);
	std::string path3 = f.path;
	Team::run(topo.threads, [&](unsigned t) {
		e0[t] = g->open(path.c_str());
		if (second && e0[t] == AG::SUCCESS) {
			e1[t] = g->open(f2.path.c_str(), 1);
			// level 0 stays usable after the failure
		}
		if (retry) {
			// an open() with corrected parameters after a failure succeeds
			gate.wait();
			if (t == 0) g->setParam("VARIABLE", "z");
			gate.wait();
			e2[t] = g->open(path3.c_str());
		}
		if (((second || k == 7) && e0[t] == AG::SUCCESS) || (retry && e2[t] == AG::SUCCESS)) {
			Rng q(qs + t);
			for (int i = 0; i < 30 && bad[t].empty(); i++) {
				size_t cell = q.below(f.cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				f.unlinear(cell, idx);
				jitter(q, f, idx, pos);
				bad[t] = compareCell(g, f, v, cell, pos, 0, 32);
			}
		}
	});
	for (unsigned t = 0; t < topo.threads; t++) {
		AG::Error got = second ? e1[t] : e0[t];
		if (second && e0[t] != AG::SUCCESS) report.fail("error:" + name, fmt("first level: %s", errName(e0[t])));
		if (got != expect) report.fail("error:" + name, fmt("thread %u: open returned %s, expected %s", t, errName(got), errName(expect)));
		if (retry && e2[t] != AG::SUCCESS) report.fail("retry:" + name, fmt("thread %u: open after a failed open returned %s", t, errName(e2[t])));
		if (!bad[t].empty()) report.fail("value-after:" + name, bad[t]);
	}
	AG::close(g);
	if (openCount() - o0 != closeCount() - c0)
		report.fail("file-leak:" + name, fmt("%lu files opened, %lu closed", (unsigned long) (openCount() - o0), (unsigned long) (closeCount() - c0)));
	unlink(f.path.c_str());
	if (second) unlink(f2.path.c_str());
	report.observe("error_" + name);
	if (retry) report.observe("retries");
	report.eval(cfg);
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C13: the file cannot be opened by some of the threads only (no descriptors left,
// a file server that does not answer, ...)
// ---------------------------------------------------------------------------
static void modeFaults(uint64_t cs)
{
	Rng r(cs);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	static const char* numas[] = { "ON", "OFF", "CACHE" };
	Topo topo = randTopo(r, 6, 4);
	setTopology(topo.node);
	unsigned levels = 1 + r.below(3);
	FileSpec f = randFile(r, scratchDir() + fmt("/f%d.nc", getpid()), 400);
	VarSpec base = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
	for (unsigned l = 0; l < levels; l++) { VarSpec v = base; v.name = fmt("v%u", l); v.seed = r.next(); f.vars.push_back(v); }
	writeFile(f);
	Params p = randBlocks(r, f);
	p["GRID"] = grids[r.below(3)];
	p["CACHE_SIZE"] = fmt("%ld", r.range(1, 30));
	if (r.chance(60)) p["NUMA_COMMUNICATION"] = numas[r.below(3)];
	std::string cfg = fmt("levels=%u ", levels) + describe(f) + " " + describe(base) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(base);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	for (unsigned l = 0; l < levels; l++) {
		apply(g, randBlocks(r, f), l);
		g->setParam("CACHE_SIZE", p["CACHE_SIZE"].c_str(), l);
		g->setParam("VARIABLE", f.vars[l].name.c_str(), l);
	}
	// The attempts: level and threads that fail; every level succeeds at last
	struct Attempt { unsigned level; uint64_t mask; };
	std::vector<Attempt> attempts;
	for (unsigned l = 0; l < levels; l++) {
		for (unsigned k = r.below(4); k > 0; k--) {
			Attempt a = { l, 0 };
			for (unsigned t = 0; t < topo.threads; t++) if (r.chance(40)) a.mask |= 1ull << t;
			// (a mask that hits no master does not fail; the level is open then)
			attempts.push_back(a);
		}
		Attempt a = { l, 0 };
		attempts.push_back(a);
	}
	std::vector<AG::Error> err(topo.threads, AG::SUCCESS);
	std::vector<std::string> bad(topo.threads);
	std::vector<bool> isOpen(levels, false);
	uint64_t qs = r.next(), o0 = openCount(), c0 = closeCount();
	unsigned partial = 0, failures = 0;
	bool stop = false, skip = false;
	uint64_t before = 0;
	Gate gate(topo.threads);
	Team::run(topo.threads, [&](unsigned t) {
		for (size_t i = 0; i < attempts.size(); i++) {
			gate.wait();
			if (t == 0) {
				skip = isOpen[attempts[i].level]; // opened already
				before = failedOpens();
				failOpenThreads(attempts[i].mask);
			}
			gate.wait();
			if (skip) continue;
			err[t] = g->open(f.path.c_str(), attempts[i].level);
			gate.wait();
			if (t == 0) {
				failOpenThreads(0);
				uint64_t n = failedOpens() - before;
				AG::Error expect = n ? AG::NOT_OPEN : AG::SUCCESS;
				for (unsigned k = 0; k < topo.threads; k++)
					if (err[k] != expect) {
						report.fail("fault-code", fmt("level %u, thread %u: open returned %s, expected %s (%lu of %u domains could not open the file)",
							attempts[i].level, k, errName(err[k]), errName(expect), (unsigned long) n, topo.domains()));
						stop = true;
					}
				if (!n) isOpen[attempts[i].level] = true;
				else { failures++; if (n < topo.domains()) partial++; }
			}
			gate.wait();
			if (stop) return;
			Rng q(qs + t + i * 100);
			for (int k = 0; k < 20 && bad[t].empty(); k++) {
				unsigned l = q.below(levels);
				size_t cell = q.below(f.cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				if (!isOpen[l]) continue;
				f.unlinear(cell, idx);
				jitter(q, f, idx, pos);
				bad[t] = compareCell(g, f, f.vars[l], cell, pos, l, 32);
			}
		}
	});
	for (unsigned t = 0; t < topo.threads; t++)
		if (!bad[t].empty()) report.fail("fault-value", bad[t]);
	AG::close(g);
	if (openCount() - o0 != closeCount() - c0)
		report.fail("fault-file", fmt("%lu files opened, %lu closed", (unsigned long) (openCount() - o0), (unsigned long) (closeCount() - c0)));
	unlink(f.path.c_str());
	report.observe("failed_opens", failures);
	report.observe("opens_failed_on_some_domains_only", partial);
	report.eval(cfg);
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C08: nothing is left behind after close (also after failed/repeated opens)
// ---------------------------------------------------------------------------
static int countFds()
{
	int n = 0;
	DIR* d = opendir("/proc/self/fd");
	while (d && readdir(d)) n++;
	if (d) closedir(d);
	return n;
}

static void lifecycle(Rng r, const FileSpec& f, const std::vector<VarSpec>& vs, const Params& p, const Topo& topo, int kind)
{
	AG* g = createGrid(vs[0]);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	for (unsigned l = 0; l < vs.size(); l++)
		g->setParam("VARIABLE", vs[l].name.c_str(), l);
	uint64_t qs = r.next(), faulty = r.next() | r.next();
	Gate gate(topo.threads);
	Team::run(topo.threads, [&](unsigned t) {
		Rng q(qs + t);
		unsigned first = 0;
		if (kind == 3) return; // never opened
		if (kind == 4) { // some domains only
			gate.wait();
			if (t == 0) failOpenThreads(faulty);
			gate.wait();
			if (g->open(f.path.c_str()) == AG::SUCCESS) first = 1;
			gate.wait();
			if (t == 0) failOpenThreads(0);
			gate.wait();
		}
		if (kind == 1) g->open("/nonexistent/file.nc");
		if (kind == 2) { gate.wait(); if (t == 0) g->setParam("VARIABLE", "nope"); gate.wait(); g->open(f.path.c_str()); gate.wait(); if (t == 0) g->setParam("VARIABLE", vs[0].name.c_str()); gate.wait(); }
		for (unsigned l = first; l < vs.size(); l++)
			if (g->open(f.path.c_str(), l) != AG::SUCCESS) return;
		for (int i = 0; i < 20; i++) {
			unsigned l = q.below(vs.size());
			size_t cell = q.below(f.cells()), idx[MAXD];
			double pos[MAXD] = { 0 };
			f.unlinear(cell, idx);
			jitter(q, f, idx, pos);
			std::string m = compareCell(g, f, vs[l], cell, pos, l, 32);
			if (!m.empty()) report.fail("value", m);
		}
	});
	AG::close(g);
}

static void modeLeaks(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/r%d.nc", getpid()), 800);
	unsigned levels = 1 + r.below(3);
	VarSpec base = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
	std::vector<VarSpec> vs;
	for (unsigned l = 0; l < levels; l++) { VarSpec v = base; v.name = fmt("v%u", l); v.seed = r.next(); vs.push_back(v); }
	f.vars = vs;
	writeFile(f);
	Params p = randBlocks(r, f);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	p["GRID"] = grids[r.below(3)];
	p["CACHE_SIZE"] = fmt("%ld", r.range(1, 30));
	static const char* numas[] = { "ON", "OFF", "CACHE" };
	if (r.chance(50)) p["NUMA_COMMUNICATION"] = numas[r.below(3)];
	Topo topo = randTopo(r, 4, 3);
	setTopology(topo.node);
	int kind = r.below(5);
	static const char* kn[] = { "plain", "missing-file-first", "missing-variable-first", "never-opened", "file-missing-for-some-threads" };
	std::string cfg = fmt("%s levels=%u ", kn[kind], levels) + describe(f) + " " + describe(base) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	uint64_t o0 = openCount(), c0 = closeCount();
	uint64_t s = r.next();
	long keys0 = liveKeys();
	trackHeap(true);
	for (int i = 0; i < 3; i++) lifecycle(Rng(s), f, vs, p, topo, kind);
	int fd0 = countFds();
	long b0 = liveBlocks(), y0 = liveBytes();
	uint64_t t0 = trackedAllocations();
	const int cycles = 6;
	for (int i = 0; i < cycles; i++) lifecycle(Rng(s), f, vs, p, topo, kind);
	int fd1 = countFds();
	long b1 = liveBlocks(), y1 = liveBytes();
	trackHeap(false);
#ifdef VERIF_SAN_ASAN
	// (one spare block: a table of the library may grow now and then)
	if (b1 - b0 >= cycles)
		report.fail(fmt("memory:%s", kn[kind]), fmt("%ld heap blocks (%ld bytes) stay allocated after %d open/close cycles", b1 - b0, y1 - y0, cycles));
	report.observe("heap_blocks_tracked", trackedAllocations() - t0);
#endif
	if (liveKeys() != keys0) report.fail(fmt("keys:%s", kn[kind]), fmt("%ld thread-specific keys left", liveKeys() - keys0));
	if (fd1 > fd0) report.fail(fmt("fd:%s", kn[kind]), fmt("%d file descriptors left by %d cycles", fd1 - fd0, cycles));
	if (openCount() - o0 != closeCount() - c0) report.fail(fmt("file:%s", kn[kind]), fmt("%lu files opened, %lu closed", (unsigned long) (openCount() - o0), (unsigned long) (closeCount() - c0)));
	unlink(f.path.c_str());
	report.observe("cycles", cycles + 3);
	report.observe(std::string("lifecycle_") + kn[kind]);
	report.eval(cfg);
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C22: grids do not influence each other, also when opened/closed concurrently
// ---------------------------------------------------------------------------
static void modeIndep(uint64_t cs)
{
	Rng r(cs);
	unsigned nf = 1 + r.below(3);
	std::vector<FileSpec> fs;
	for (unsigned i = 0; i < nf; i++) {
		FileSpec f = randFile(r, scratchDir() + fmt("/i%d_%u.nc", getpid(), i), 500);
		VarSpec v = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
		f.vars.push_back(v);
		writeFile(f);
		fs.push_back(f);
	}
	unsigned teams = 2 + r.below(4);
	setTopology(std::vector<int>(64, 0));
	std::vector<int> topo(64);
	for (unsigned i = 0; i < 64; i++) topo[i] = r.below(3);
	setTopology(topo);
	std::vector<std::string> bad(teams);
	uint64_t qs = r.next();
	std::string cfg = fmt("files=%u teams=%u rounds seed=%llu", nf, teams, (unsigned long long) qs);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	perturb(10, 60, qs);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	std::atomic<uint64_t> compared(0), opened(0);
	Team::run(teams, [&](unsigned t) {
		Rng q(qs + t * 977);
		// every team keeps several single-threaded grids alive and opens/closes at random
		struct Live { AG* g; unsigned f; };
		std::vector<Live> live;
		for (int step = 0; step < 40 && bad[t].empty(); step++) {
			if (live.empty() || (q.chance(30) && live.size() < 5)) {
				Live l;
				l.f = q.below(nf);
				const FileSpec& f = fs[l.f];
				l.g = createGrid(f.vars[0]);
				Params p = randBlocks(q, f);
				p["GRID"] = grids[q.below(3)];
				p["CACHE_SIZE"] = fmt("%ld", q.range(1, 6));
				apply(l.g, p, 0);
				AG::Error e = l.g->open(f.path.c_str());
				if (e != AG::SUCCESS) { bad[t] = fmt("open: %s", errName(e)); AG::close(l.g); break; }
				live.push_back(l);
				opened.fetch_add(1, std::memory_order_relaxed);
			} else if (q.chance(25)) {
				size_t k = q.below(live.size());
				AG::close(live[k].g);
				live.erase(live.begin() + k);
			} else {
				const Live& l = live[q.below(live.size())];
				const FileSpec& f = fs[l.f];
				for (int i = 0; i < 10 && bad[t].empty(); i++) {
					size_t cell = q.below(f.cells()), idx[MAXD];
					double pos[MAXD] = { 0 };
					f.unlinear(cell, idx);
					jitter(q, f, idx, pos);
					bad[t] = compareCell(l.g, f, f.vars[0], cell, pos, 0, 32);
					compared.fetch_add(1, std::memory_order_relaxed);
				}
			}
		}
		for (size_t k = 0; k < live.size(); k++) AG::close(live[k].g);
	});
	perturb(0, 0, 0);
	for (unsigned t = 0; t < teams; t++) if (!bad[t].empty()) report.fail("independence", fmt("team %u: %s", t, bad[t].c_str()));
	for (unsigned i = 0; i < nf; i++) unlink(fs[i].path.c_str());
	report.observe("values_compared", compared);
	report.observe("grids_opened", opened);
	report.eval(cfg);
	report.sample(cfg);
}

#include "huge.h"

/** The same threads use several grids and run on other nodes for each of them */
static void modeMigrate(uint64_t cs)
{
	Rng r(cs);
	unsigned K = 2 + r.below(3), T = 1 + r.below(5);
#ifndef THREADSAFE
	T = 1;
#endif
	std::vector<FileSpec> fs;
	std::vector<std::vector<VarSpec> > vs(K);
	std::vector<std::vector<Params> > ps(K);
	std::vector<std::vector<int> > cpu(K); // of each thread when it opens the grid for the first time
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	std::vector<int> topo(64);
	for (unsigned i = 0; i < 64; i++) topo[i] = (i % 4) * 3 % 5;
	setTopology(topo);
	std::string cfg = fmt("grids=%u thr=%u", K, T);
	for (unsigned k = 0; k < K; k++) {
		FileSpec f = randFile(r, scratchDir() + fmt("/w%d_%u.nc", getpid(), k), 400);
		VarSpec base = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
		unsigned levels = 1 + r.below(3);
		std::string grid = grids[r.below(5) % 3];
		for (unsigned l = 0; l < levels; l++) {
			VarSpec v = base;
			v.name = fmt("v%u", l);
			v.seed = r.next();
			f.vars.push_back(v);
			vs[k].push_back(v);
			Params p = randBlocks(r, f);
			p["VARIABLE"] = v.name;
			p["CACHE_SIZE"] = fmt("%ld", r.range(1, 8));
			if (l == 0) { p["GRID"] = grid; if (r.chance(30)) p["NUMA_COMMUNICATION"] = r.chance(50) ? "CACHE" : "OFF"; }
			ps[k].push_back(p);
		}
		writeFile(f);
		fs.push_back(f);
		std::set<int> nodes;
		cfg += fmt(" | %s levels=%u %s nodes=", grid.c_str(), levels, describe(f).c_str());
		for (unsigned t = 0; t < T; t++) { cpu[k].push_back(r.below(64)); nodes.insert(topo[cpu[k][t]]); cfg += fmt("%d", topo[cpu[k][t]]); }
		for (unsigned l = 0; l < levels; l++) cfg += " " + pstr(ps[k][l]);
	}
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	// opening order: levels of all grids mixed
	std::vector<std::pair<unsigned, unsigned> > order;
	for (unsigned k = 0; k < K; k++) for (unsigned l = 0; l < vs[k].size(); l++) order.push_back(std::make_pair(k, l));
	for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[r.below(i)]);
	std::vector<AG*> g(K);
	for (unsigned k = 0; k < K; k++) {
		g[k] = createGrid(vs[k][0]);
		g[k]->setThreads(T);
		for (unsigned l = 0; l < ps[k].size(); l++) apply(g[k], ps[k][l], l);
	}
	std::vector<std::string> bad(T);
	uint64_t qs = r.next();
	perturb(r.chance(50) ? 10 : 0, 60, qs);
	std::atomic<uint64_t> compared(0);
	Team::run(T, [&](unsigned t) {
		Rng q(qs + t);
		std::vector<char> seen(K, 0);
		std::vector<std::vector<char> > open(K);
		for (unsigned k = 0; k < K; k++) open[k].assign(vs[k].size(), 0);
		for (size_t i = 0; i < order.size() && bad[t].empty(); i++) {
			unsigned k = order[i].first, l = order[i].second;
			// where the grid meets a thread first is what counts; later it may run anywhere
			setThread(t, seen[k] ? (int) q.below(64) : cpu[k][t]);
			seen[k] = 1;
			AG::Error e = g[k]->open(fs[k].path.c_str(), l);
			if (e != AG::SUCCESS) { bad[t] = fmt("grid %u level %u: open: %s", k, l, errName(e)); break; }
			open[k][l] = 1;
			for (int n = 0; n < 12 && bad[t].empty(); n++) {
				unsigned kk = q.below(K), ll = q.below(vs[kk].size());
				if (!open[kk][ll]) continue;
				if (q.chance(40)) setThread(t, q.below(64));
				const FileSpec& f = fs[kk];
				size_t cell = q.below(f.cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				f.unlinear(cell, idx);
				jitter(q, f, idx, pos);
				bad[t] = compareCell(g[kk], f, vs[kk][ll], cell, pos, ll, 32);
				compared.fetch_add(1, std::memory_order_relaxed);
			}
		}
	});
	perturb(0, 0, 0);
	for (unsigned t = 0; t < T; t++) if (!bad[t].empty()) report.fail("migrate", fmt("thread %u: %s", t, bad[t].c_str()));
	for (unsigned k = 0; k < K; k++) AG::close(g[k]);
	for (unsigned k = 0; k < K; k++) unlink(fs[k].path.c_str());
	report.observe("values_compared", compared);
	report.observe("shared_threads", T);
	report.eval(T > 1 ? cfg : "");
	report.sample(cfg);
}

/** More grids than the process has thread-specific keys: errors for the surplus, no harm to the others */
static void modeMany(uint64_t cs)
{
	Rng r(cs);
	FileSpec f = randFile(r, scratchDir() + fmt("/y%d.nc", getpid()), 300);
	VarSpec v = randVar(r, BASIC, AG::INT);
	f.vars.push_back(v);
	writeFile(f);
	Topo topo;
	topo.threads = 2 + r.below(4);
	for (unsigned i = 0; i < topo.threads; i++) topo.node.push_back(i % (1 + r.below(3)));
	setTopology(topo.node);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	Params p = randBlocks(r, f);
	p["GRID"] = grids[r.below(3)];
	p["CACHE_SIZE"] = fmt("%ld", r.range(1, 5));
	std::string cfg = "many grids " + describe(f) + " " + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	unsigned early = r.below(3), surplus = 1 + r.below(40);
	std::vector<AG*> watched, others;
	for (unsigned i = 0; i <= early; i++) {
		AG* g = createGrid(v);
		g->setThreads(topo.threads);
		apply(g, p, 0);
		watched.push_back(g);
	}
	for (unsigned i = 0; i < 1024 + surplus; i++) others.push_back(createGrid(v));
	AG* full = createGrid(v); // no room for this one
	full->setThreads(topo.threads);
	apply(full, p, 0);
	std::vector<std::string> bad(topo.threads);
	uint64_t qs = r.next();
	unsigned failed = 0, opened = 0, reopened = 0;
	Gate gate(topo.threads);
	uint64_t o0 = openCount(), c0 = closeCount();
	Team::run(topo.threads, [&](unsigned t) {
		Rng q(qs + t);
		auto query = [&](const char* when) {
			for (size_t k = 0; k < watched.size(); k++)
				for (int i = 0; i < 15 && bad[t].empty(); i++) {
					size_t cell = q.below(f.cells()), idx[MAXD];
					double pos[MAXD] = { 0 };
					f.unlinear(cell, idx);
					jitter(q, f, idx, pos);
					std::string m = compareCell(watched[k], f, v, cell, pos, 0, 32);
					if (!m.empty()) bad[t] = fmt("grid %zu %s: %s", k, when, m.c_str());
				}
		};
		for (size_t k = 0; k < watched.size(); k++) {
			AG::Error e = watched[k]->open(f.path.c_str());
			if (e != AG::SUCCESS) bad[t] = fmt("open: %s", errName(e));
		}
		query("after open");
		// All threads learn that a grid cannot be opened, as often as they try
		for (int i = 0; i < 3; i++) {
			AG::Error e = full->open(f.path.c_str(), i / 2);
			if (e != AG::THREAD_ERROR) bad[t] = fmt("open %d of a grid without room: %s", i, errName(e));
		}
		gate.wait();
		if (t == 0) {
			for (size_t i = others.size(); i-- > others.size() - surplus - 8;) {
				AG::Error e = others[i]->open(f.path.c_str());
				if (e == AG::SUCCESS) opened++; else failed++;
				if (e != AG::SUCCESS && e != AG::THREAD_ERROR) bad[t] = fmt("open of a surplus grid: %s", errName(e));
			}
			// close the surplus in random order
			for (unsigned i = 0; i < surplus; i++) { AG::close(others.back()); others.pop_back(); }
		}
		gate.wait();
		query("after closing surplus grids");
		gate.wait();
		if (t == 0) {
			for (int i = 0; i < 20; i++) { AG::close(others[i]); others[i] = 0; }
			AG* g = createGrid(v);
			if (g->open(f.path.c_str()) == AG::SUCCESS) reopened++;
			AG::close(g);
		}
		gate.wait();
		query("after closing further grids");
	});
	for (unsigned t = 0; t < topo.threads; t++) if (!bad[t].empty()) { report.fail("many-grids", bad[t]); break; }
	if (!reopened) report.fail("many-reopen", "closing grids does not make room for new ones");
	AG::close(full);
	for (size_t i = 0; i < others.size(); i++) if (others[i]) AG::close(others[i]);
	for (size_t i = 0; i < watched.size(); i++) AG::close(watched[i]);
	if (openCount() - o0 != closeCount() - c0) report.fail("many-files", "files left open");
	unlink(f.path.c_str());
	report.observe("surplus_grids_refused", failed);
	report.observe("grids_opened", opened + reopened);
	report.eval(cfg);
	report.sample(cfg);
}

// ---------------------------------------------------------------------------
// C07: hostile (but legal to pass) inputs never make the library access memory
// it does not own; every value returned is the value of a cell of the grid
// ---------------------------------------------------------------------------
/** Cells of one dimension a position may select */
static void acceptable(const DimSpec& d, double x, std::set<size_t>& out)
{
	out.clear();
	double off = d.coord ? d.off : 0, step = d.coord ? d.step : 1;
	bool any = d.coord && d.odd >= ODD_CONST;
	if (d.coord && (d.odd == ODD_CHAR || d.odd == ODD_2D)) { off = 0; step = 1; }
	// no usable second coordinate: only the offset is known
	if (d.coord && (d.odd == ODD_SCALAR || d.odd == ODD_SHORT)) any = true;
	if (d.size == 1) { out.insert(0); return; }
	if (std::isnan(x)) any = true;
	if (any) { for (size_t i = 0; i < d.size; i++) out.insert(i); return; }
	long double i = ((long double) x - off) / step;
	if (!(i > 0)) { out.insert(0); if (i > -1e-6L) return; return; }
	if (i >= d.size - 1) { out.insert(d.size - 1); return; }
	// around an edge between two cells both are fine
	long double tol = 1e-9L + 1e-12L * fabsl((long double) off / step);
	out.insert((size_t) floorl(i + 0.5L - tol));
	out.insert(std::min(d.size - 1, (size_t) floorl(i + 0.5L + tol)));
}

static double hostileNumber(Rng& r, const DimSpec& d)
{
	static const double n[] = { NAN, -NAN, INFINITY, -INFINITY, 1e308, -1e308, 1.7976931348623157e308, 4.9e-324, -4.9e-324, -0.0,
		2147483647., 2147483648., -2147483649., 4294967296., 9223372036854775807., 9223372036854775808., -9223372036854775808.,
		18446744073709551615., 18446744073709551616., 36893488147419103232., 9007199254740993., 0.49999999999999994, -0.5 };
	double c0 = coordOf(d, 0), c1 = coordOf(d, d.size - 1), st = d.coord ? d.step : 1;
	switch (r.below(5)) {
	case 0: case 1: return n[r.below(sizeof n / sizeof *n)];
	case 2: return (r.chance(50) ? c0 : c1) + r.range(-3, 3) * 0.5 * st;
	case 3: return c0 + (c1 - c0) * (r.unit() * 3 - 1);
	default: return c0 + st * n[r.below(sizeof n / sizeof *n)];
	}
}

static void modeHostile(uint64_t cs)
{
	Rng r(cs);
	static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
	std::string grid = grids[r.below(3)];
	bool big = r.chance(12);
	FileSpec f = randFile(r, scratchDir() + fmt("/h%d.nc", getpid()), big ? 40000 : 600);
	int odds = 0;
	for (unsigned n = 0; n < f.nd(); n++) {
		DimSpec& d = f.dims[n];
		if (d.coord && r.chance(35) && d.size <= 200) { d.odd = 1 + r.below(ODD_DENORMAL); odds++; }
		if (d.odd == ODD_INT) { d.off = r.range(-100, 100); d.step = r.chance(50) ? r.range(1, 9) : r.range(-9, -1); }
		if (d.odd == ODD_FLOAT) { d.off = r.range(-100, 100) * 0.5; d.step = (r.chance(50) ? 1 : -1) * (double) r.range(1, 9) * 0.25; }
	}
	VarSpec v = randVar(r, r.chance(60) ? BASIC : (r.chance(50) ? ARRAY : STRUCT), (AG::Type) r.below(5));
	if (r.chance(40)) v.name = std::string(1 + r.below(200), 'n');
	f.vars.push_back(v);
	int empty = -1;
	if (r.chance(6)) {
		// an unlimited dimension nobody has written to
		int nc, d[MAXD];
		Quiet q;
		VF_NC(nc_create(f.path.c_str(), NC_CLOBBER | NC_NETCDF4, &nc));
		empty = r.below(f.nd());
		for (unsigned i = 0; i < f.nd(); i++)
			VF_NC(nc_def_dim(nc, fmt("d%u", i).c_str(), (int) i == empty ? NC_UNLIMITED : f.dims[i].size, &d[f.nd() - i - 1]));
		int id;
		VF_NC(nc_def_var(nc, v.name.c_str(), v.kind == BASIC ? v.fileType : ncTypeOf(v.type), f.nd(), d, &id));
		VF_NC(nc_close(nc));
	} else
		writeFile(f);
	// parameters
	Params p;
	p["GRID"] = grid;
	if (v.name != "z") p["VARIABLE"] = v.name;
	static const char* bsz[] = { "2147483647", "-2147483648", "-1", "1", "0", "3", "65", "1000000" };
	for (unsigned n = 0; n < 6; n++)
		if (r.chance(40)) p[fmt("BLOCK_SIZE_%u", n)] = bsz[r.below(8)];
	static const char* hs[] = { "2147483647", "-2147483648", "-1", "0", "1", "7", "127", "128" };
	if (r.chance(50)) p["CACHE_HAND_SPREAD"] = hs[r.below(8)];
	static const char* td[] = { "2147483647", "-2147483648", "-1", "0", "3", "4", "100" };
	if (r.chance(50)) p["TIME_DIMENSION"] = td[r.below(7)];
	if (r.chance(70)) p["CACHE_SIZE"] = fmt("%ld", r.chance(80) ? r.range(1, 6) : r.range(7, 3000));
	if (r.chance(30)) p["NUMA_COMMUNICATION"] = r.chance(50) ? "CACHE" : "OFF";
	Topo topo = randTopo(r, 3, 3);
	setTopology(topo.node);
	std::string cfg = describe(f) + " " + describe(v) + " " + topo.str() + " " + pstr(p) + (empty >= 0 ? " empty" : "") + " odd=";
	for (unsigned n = 0; n < f.nd(); n++) cfg += fmt("%d,", f.dims[n].odd);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	AG* g = createGrid(v);
	if (topo.threads > 1 || r.chance(50)) g->setThreads(topo.threads);
	// parameters that mean nothing, absurd names, high levels
	unsigned level = r.chance(25) ? r.below(40) : 0;
	if (r.chance(50)) {
		g->setParam("", "");
		g->setParam(std::string(1 + r.below(3000), 'x').c_str(), std::string(r.below(3000), '-').c_str(), r.below(60));
		g->setParam("BLOCK_SIZE_", "4", level);
		g->setParam("BLOCK_SIZE_99999999999", "4", level);
		g->setParam("VARIABLE", std::string(5000, 'v').c_str(), 61);
	}
	for (unsigned l = 0; l <= level; l++)
		if (l == 0 || l == level) apply(g, p, l);
	std::vector<std::string> bad(topo.threads);
	std::vector<AG::Error> errs(topo.threads, AG::SUCCESS);
	std::vector<uint64_t> done(topo.threads, 0), clamped(topo.threads, 0);
	uint64_t qseed = r.next();
	std::string junk = scratchDir() + fmt("/junk%d", getpid());
	bool junkFirst = r.chance(20);
	int junkKind = r.below(4);
	if (junkFirst) {
		FILE* o = fopen(junk.c_str(), "wb");
		for (int i = 0; i < 300; i++) fputc(junkKind == 1 ? 0 : (int) (mix(qseed + i) & 0xff), o);
		fclose(o);
	}
	std::string longName(4000, 'q');
	Team::run(topo.threads, [&](unsigned t) {
		Rng q(qseed + t * 7919);
		if (junkFirst) {
			const char* name = junkKind == 2 ? "" : (junkKind == 3 ? longName.c_str() : junk.c_str());
			AG::Error e = g->open(name, level);
			if (e == AG::SUCCESS) { bad[t] = "a file that is no netCDF file was opened"; return; }
		}
		errs[t] = g->open(f.path.c_str(), 0);
		if (errs[t] != AG::SUCCESS) return;
		if (level > 0 && (errs[t] = g->open(f.path.c_str(), level)) != AG::SUCCESS) return;
		// names and levels nobody opened or knows
		g->getCounter("", 0);
		g->getCounter(longName.c_str(), level);
		unsigned queries = grid == "PASS_THROUGH" ? 60 : 150;
		size_t nbytes = varBytes(v);
		std::vector<unsigned char> eb, em;
		for (unsigned i = 0; i < queries && bad[t].empty(); i++) {
			// exactly as many values as there are dimensions
			double* pos = (double*) malloc(std::max(1u, f.nd()) * sizeof(double));
			std::vector<std::set<size_t> > acc(f.nd());
			size_t combos = 1;
			for (unsigned n = 0; n < f.nd(); n++) {
				pos[n] = hostileNumber(q, f.dims[n]);
				acceptable(f.dims[n], pos[n], acc[n]);
				combos *= acc[n].size();
				if (acc[n].size() == 1) clamped[t]++;
			}
			unsigned char* buf = (unsigned char*) malloc(nbytes); // ASan guards both ends
			g->getBuf(buf, pos, level > 0 && q.chance(50) ? level : 0);
			if (combos <= 2500) {
				bool ok = false;
				std::vector<std::set<size_t>::iterator> it(f.nd());
				for (unsigned n = 0; n < f.nd(); n++) it[n] = acc[n].begin();
				for (size_t c = 0; c < combos && !ok; c++) {
					size_t idx[MAXD];
					for (unsigned n = 0; n < f.nd(); n++) idx[n] = *it[n];
					expectBytes(v, f.linear(idx), eb, em);
					ok = true;
					for (size_t k = 0; k < nbytes && ok; k++) if (em[k] && eb[k] != buf[k]) ok = false;
					for (unsigned n = 0; n < f.nd(); n++) { if (++it[n] != acc[n].end()) break; it[n] = acc[n].begin(); }
				}
				if (!ok) bad[t] = fmt("thread %u pos %s: the value returned belongs to none of the %zu acceptable cells", t, posStr(pos, f.nd()).c_str(), combos);
				done[t]++;
			}
			free(buf);
			free(pos);
		}
	});
	for (unsigned t = 0; t < topo.threads; t++) {
		if (!bad[t].empty()) { report.fail("hostile-value", bad[t]); break; }
		if (empty >= 0) {
			if (errs[t] != AG::WRONG_SIZE) { report.fail("hostile-empty", fmt("open of a variable without values returned %s", errName(errs[t]))); break; }
		} else if (errs[t] != AG::SUCCESS) { report.fail("hostile-open", fmt("thread %u: open returned %s", t, errName(errs[t]))); break; }
	}
	AG::close(g);
	if (junkFirst) unlink(junk.c_str());
	unlink(f.path.c_str());
	uint64_t s = 0, c = 0;
	for (unsigned t = 0; t < topo.threads; t++) { s += done[t]; c += clamped[t]; }
	report.observe("hostile_positions", s);
	report.observe("exactly_determined_indices", c);
	if (odds) report.observe("odd_coordinate_variables");
	if (empty >= 0) report.observe("empty_variables");
	if (level > 0) report.observe("sparse_levels");
	report.eval(cfg);
	report.sample(cfg);
}

int main(int argc, char** argv)
{
	Args a(argc, argv);
	args = &a;
	std::string mode = a.str("mode", "values");
	seedBase = a.num("seed", 1);
	crowds = true;
	long first = a.num("first", 0), n = a.num("n", 10);
	uint64_t overlap = 0, badKeys = 0;
	for (long i = first; i < first + n; i++) {
		uint64_t cs = a.kv.count("case") ? strtoull(a.kv["case"].c_str(), 0, 10) : (mix(seedBase * 1000003 + i) & 0xffffffffffull) / 40 * 40 + i % 40;
		if (mode == "values") modeValues(cs, false);
		else if (mode == "stress") modeValues(cs, true);
		else if (mode == "coords") modeCoords(cs);
		else if (mode == "types") modeTypes(cs);
		else if (mode == "cache") modeCache(cs);
		else if (mode == "counters") modeCounters(cs, false);
		else if (mode == "counters_mt") modeCounters(cs, true);
		else if (mode == "levels") modeLevels(cs);
		else if (mode == "levelcache") modeLevelCache(cs);
		else if (mode == "params") { modeParams(cs); modeParamFallback(cs); }
		else if (mode == "blocks") modeBlocks(cs);
		else if (mode == "numa") modeNuma(cs);
		else if (mode == "pass") modePass(cs);
		else if (mode == "errors") modeErrors(cs);
		else if (mode == "faults") modeFaults(cs);
		else if (mode == "leaks") modeLeaks(cs);
		else if (mode == "indep") modeIndep(cs);
		else if (mode == "huge") modeHuge(cs);
		else if (mode == "big") modeBig(cs);
		else if (mode == "migrate") modeMigrate(cs);
		else if (mode == "many") modeMany(cs);
		else if (mode == "hostile") modeHostile(cs);
		else { fprintf(stderr, "HARNESS-ERROR unknown mode\n"); return 96; }
		// netCDF is not thread-safe: the library has to serialise its calls
		if (badKeyDeletes() != badKeys) {
			report.fail("foreign-key", "a thread-specific key the library does not own was deleted");
			badKeys = badKeyDeletes();
		}
		if (libraryOverlap() != overlap) {
			report.fail("netcdf-overlap", fmt("%lu netCDF calls were made while another thread was inside netCDF", (unsigned long) (libraryOverlap() - overlap)));
			overlap = libraryOverlap();
		}
		if (a.kv.count("case")) break;
	}
	report.write();
	return 0;
}
