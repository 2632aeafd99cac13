// Grids with more cells than any int can count: sparse files (chunked, only a few cells are written)
static void modeHuge(uint64_t cs)
{
	Rng r(cs);
	unsigned nd = 1 + r.below(MAXD);
	FileSpec f;
	f.path = scratchDir() + fmt("/u%d.nc", getpid());
	double bits = r.range(300, 430) / 10.;
	for (unsigned i = 0; i < nd; i++) {
		DimSpec d;
		double share = i + 1 == nd ? bits : bits / (nd - i) * (0.5 + r.unit());
		share = std::max(0., std::min(share, bits));
		d.size = (size_t) std::pow(2., share) + r.below(3);
		if (d.size < 1) d.size = 1;
		bits -= std::log2((double) d.size);
		if (bits < 0) bits = 0;
		if (d.size < 100000 && r.chance(50)) { d.coord = true; d.off = r.range(-100, 100) * 0.25; d.step = r.chance(30) ? -0.5 : 2; }
		f.dims.push_back(d);
	}
	bool dbl = r.chance(50);
	Params p;
	unsigned per = nd == 1 ? 200 : (nd == 2 ? 16 : (nd == 3 ? 7 : 4));
	for (unsigned n = 0; n < nd; n++) p[fmt("BLOCK_SIZE_%u", n)] = fmt("%lu", std::min<size_t>(f.dims[n].size, 1 + r.below(r.chance(50) ? 2 : per)));
	bool cache = r.chance(75);
	p["GRID"] = cache ? "CACHE" : "PASS_THROUGH";
	long size = r.range(1, 9);
	p["CACHE_SIZE"] = fmt("%ld", size);
	if (r.chance(40)) p["NUMA_COMMUNICATION"] = r.chance(50) ? "OFF" : "ON";
	Topo topo = randTopo(r, r.chance(50) ? 1 : 3, 3);
	setTopology(topo.node);
	Blocks b(p, f);
	std::string cfg = describe(f) + (dbl ? " double " : " int ") + topo.str() + " " + pstr(p);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	// cells with values: corners, random ones, and cells of blocks whose numbers agree in the lower bits
	typedef std::vector<size_t> Cell;
	std::map<Cell, int> value;
	std::vector<Cell> known;
	auto add = [&](const Cell& c) { if (!value.count(c)) { value[c] = 1 + r.below(1000000); known.push_back(c); } };
	auto corner = [&](size_t blk, bool first) {
		Cell c;
		for (unsigned n = 0; n < nd; n++) {
			size_t x = blk % b.nb[n] * b.bs[n];
			blk /= b.nb[n];
			c.push_back(std::min(x + (first ? 0 : r.below(b.bs[n])), f.dims[n].size - 1));
		}
		return c;
	};
	add(corner(0, true));
	{ Cell c; for (unsigned n = 0; n < nd; n++) c.push_back(f.dims[n].size - 1); add(c); }
	for (int i = 0; i < 5; i++) {
		size_t blk = r.next() % b.total;
		add(corner(blk, false));
		static const int shift[] = { 16, 24, 31, 32, 33 };
		size_t other = blk + ((size_t) 1 << shift[r.below(5)]);
		if (other < b.total) { add(corner(other, false)); add(corner(blk, true)); add(corner(other, true)); }
	}
	{
		Quiet q;
		int nc, v;
		std::vector<int> dim(nd), cv(nd, -1);
		VF_NC(nc_create(f.path.c_str(), NC_CLOBBER | NC_NETCDF4, &nc));
		std::vector<size_t> chunk;
		for (unsigned i = 0; i < nd; i++) {
			VF_NC(nc_def_dim(nc, fmt("d%u", i).c_str(), f.dims[i].size, &dim[nd - i - 1]));
			if (f.dims[i].coord) VF_NC(nc_def_var(nc, fmt("d%u", i).c_str(), NC_DOUBLE, 1, &dim[nd - i - 1], &cv[i]));
		}
		for (unsigned i = 0; i < nd; i++) chunk.push_back(std::min<size_t>(f.dims[nd - i - 1].size, nd == 1 ? 1024 : (nd == 2 ? 32 : (nd == 3 ? 10 : 6))));
		VF_NC(nc_def_var(nc, "z", dbl ? NC_DOUBLE : NC_INT, nd, &dim[0], &v));
		VF_NC(nc_def_var_chunking(nc, v, NC_CHUNKED, &chunk[0]));
		VF_NC(nc_enddef(nc));
		for (unsigned i = 0; i < nd; i++)
			if (cv[i] >= 0) {
				std::vector<double> c(f.dims[i].size);
				for (size_t j = 0; j < c.size(); j++) c[j] = f.dims[i].off + j * f.dims[i].step;
				VF_NC(nc_put_var_double(nc, cv[i], &c[0]));
			}
		for (auto& k : value) {
			std::vector<size_t> at(k.first.rbegin(), k.first.rend());
			VF_NC(nc_put_var1_int(nc, v, &at[0], &k.second));
		}
		VF_NC(nc_close(nc));
	}
	AG* g = AG::create(dbl ? AG::DOUBLE : AG::INT);
	g->setThreads(topo.threads);
	apply(g, p, 0);
	std::vector<std::string> bad(topo.threads), key(topo.threads);
	Clock model(size, -1);
	uint64_t qs = r.next();
	std::atomic<uint64_t> far(0), compared(0);
	Team::run(topo.threads, [&](unsigned t) {
		Rng q(qs + t);
		AG::Error e = g->open(f.path.c_str());
		if (e != AG::SUCCESS) { key[t] = "huge:open"; bad[t] = errName(e); return; }
		if (t == 0)
			for (unsigned n = 0; n < nd; n++) {
				const DimSpec& d = f.dims[n];
				double o = d.coord ? d.off : 0, s = d.coord ? d.step : 1, last = o + (d.size - 1) * s, h = std::fabs(s) / 2;
				double lo = std::min(o, last) - h, hi = std::max(o, last) + h, tol = 1e-6 * h + 1e-9 * (std::fabs(o) + std::fabs(last));
				if (d.size > 1 && (std::fabs(g->getMin(n) - lo) > tol || std::fabs(g->getMax(n) - hi) > tol))
					{ key[t] = "huge:range"; bad[t] = fmt("dimension %u: [%.17g,%.17g] expected [%.17g,%.17g]", n, g->getMin(n), g->getMax(n), lo, hi); return; }
			}
		for (int i = 0; i < 80 && bad[t].empty(); i++) {
			Cell c = q.pick(known);
			if (q.chance(40)) {
				unsigned n = q.below(nd);
				size_t step = q.chance(50) ? 1 : b.bs[n];
				if (q.chance(50)) { if (c[n] + step < f.dims[n].size) c[n] += step; } else if (c[n] >= step) c[n] -= step;
			}
			double pos[MAXD] = { 0 };
			jitter(q, f, &c[0], pos);
			std::map<Cell, int>::iterator k = value.find(c);
			double want = k != value.end() ? k->second : (dbl ? NC_FILL_DOUBLE : NC_FILL_INT);
			uint64_t r0 = readCount();
			double got = dbl || q.chance(30) ? g->getDouble(pos) : g->getInt(pos);
			if (got != want) { key[t] = "huge:value"; bad[t] = fmt("thread %u query %d pos %s: %.17g expected %.17g", t, i, posStr(pos, nd).c_str(), got, want); break; }
			compared++;
			size_t blk = b.of(&c[0]);
			if (blk >> 32) far++;
			if (topo.threads == 1) {
				long ev, rd = readCount() - r0, exp = cache ? !model.access(blk, ev) : 1;
				if (rd != exp) { key[t] = "huge:reads"; bad[t] = fmt("query %d block %zu: %ld file reads, expected %ld", i, blk, rd, exp); }
			}
		}
	});
	for (unsigned t = 0; t < topo.threads; t++) if (!bad[t].empty()) report.fail(key[t], bad[t]);
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("huge_values", compared);
	report.observe("blocks_beyond_32_bit", far);
	report.eval(f.cells() >> 31 ? cfg : "");
	report.sample(cfg);
}

// More than 4 GiB of stored cells: byte offsets do not fit into 32 bits
static void modeBig(uint64_t cs)
{
	Rng r(cs);
	bool full = cs % 2;
	// the block is the unit of reading: few large ones
	const size_t block = 1 << 24, blocks = 33 + r.below(3), cells = block * blocks - r.below(1000);
	FileSpec f;
	f.path = scratchDir() + fmt("/big%d.nc", getpid());
	DimSpec d;
	d.size = cells;
	f.dims.push_back(d);
	std::map<size_t, double> value;
	for (size_t k = 0; k < blocks; k++)
		for (int i = 0; i < 3; i++)
			value[std::min(cells - 1, k * block + (i == 0 ? 0 : (i == 1 ? block - 1 : r.below(block))))] = r.range(1, 100000000) * 0.5;
	Topo topo;
	topo.threads = 1 + r.below(2);
	for (unsigned t = 0; t < topo.threads; t++) topo.node.push_back(1);
#ifndef THREADSAFE
	topo.threads = 1;
#endif
	setTopology(topo.node);
	std::string cfg = fmt("%s %zu cells in blocks of %zu %s", full ? "FULL" : "CACHE", cells, block, topo.str().c_str());
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	{
		Quiet q;
		int nc, dim, v;
		size_t chunk = 1 << 16;
		double fill = -1.25;
		VF_NC(nc_create(f.path.c_str(), NC_CLOBBER | NC_NETCDF4, &nc));
		VF_NC(nc_def_dim(nc, "x", cells, &dim));
		VF_NC(nc_def_var(nc, "z", NC_DOUBLE, 1, &dim, &v));
		VF_NC(nc_def_var_chunking(nc, v, NC_CHUNKED, &chunk));
		VF_NC(nc_def_var_fill(nc, v, 0, &fill));
		VF_NC(nc_enddef(nc));
		for (auto& k : value) VF_NC(nc_put_var1_double(nc, v, &k.first, &k.second));
		VF_NC(nc_close(nc));
	}
	AG* g = AG::create(AG::DOUBLE);
	g->setThreads(topo.threads);
	g->setParam("GRID", full ? "FULL" : "CACHE");
	g->setParam("BLOCK_SIZE_0", fmt("%zu", block).c_str());
	g->setParam("CACHE_SIZE", fmt("%zu", blocks + 1).c_str());
	g->setParam("VALUE_POSITION", "VERTEX_CENTERED");
	std::vector<std::string> bad(topo.threads);
	std::atomic<uint64_t> compared(0);
	Team::run(topo.threads, [&](unsigned t) {
		AG::Error e = g->open(f.path.c_str());
		if (e != AG::SUCCESS) { bad[t] = errName(e); return; }
		for (int round = 0; round < 2; round++)
			for (auto& k : value)
				for (int s = -1; s <= 1 && bad[t].empty(); s++) {
					if ((s < 0 && k.first == 0) || k.first + s >= cells) continue;
					size_t c = k.first + s;
					double pos = c, want = value.count(c) ? value[c] : -1.25, got = g->getDouble(&pos);
					if (got != want) bad[t] = fmt("thread %u cell %zu: %.17g expected %.17g", t, c, got, want);
					compared++;
				}
	});
	for (unsigned t = 0; t < topo.threads; t++) if (!bad[t].empty()) report.fail("big:value", bad[t]);
	AG::close(g);
	unlink(f.path.c_str());
	report.observe("values_beyond_4GiB", compared);
	report.eval(cfg);
	report.sample(cfg);
}
