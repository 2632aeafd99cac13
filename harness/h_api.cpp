// The C and Fortran interfaces against the C++ interface (builds without MPI): the C layer is compiled
// as C, the Fortran layer uses the module of the library.
#include <atomic>

#include "api.h"
#include "workload.h"

static std::atomic<uint64_t> warnings(0);
extern "C" void verif_log_warning(const char*) { warnings++; }

extern "C" {
int vf_create(int);
int vf_create_array(int);
int vf_create_struct(int, int*, long*, int*);
void vf_set_threads(int, int);
void vf_set_param(int, const char*, int, const char*, int, int);
int vf_open(int, const char*, int, int);
int vf_dimensions(int);
double vf_min(int, int);
double vf_max(int, int);
double vf_delta(int, int, int);
int vf_var_size(int);
int vf_get_byte(int, const double*, int);
int vf_get_int(int, const double*, int);
long vf_get_long(int, const double*, int);
float vf_get_float(int, const double*, int);
double vf_get_double(int, const double*, int);
void vf_get_buf(int, void*, const double*, int);
void vf_close(int);
void vf_constants(int*, int*);
}

static Api api_f = { "Fortran",
	[](int t) -> long { return vf_create(t); }, [](int t) -> long { return vf_create_array(t); },
	[](int n, int* b, long* d, int* t) -> long { return vf_create_struct(n, b, d, t); },
	[](long g, int n) { vf_set_threads(g, n); }, [](long g, const char* n, const char* v, int l) { vf_set_param(g, n, strlen(n), v, strlen(v), l); },
	[](long g, const char* f, int l) { return vf_open(g, f, strlen(f), l); }, [](long g) { return vf_dimensions(g); },
	[](long g, int n) { return vf_min(g, n); }, [](long g, int n) { return vf_max(g, n); }, [](long g, int n, int l) { return vf_delta(g, n, l); },
	[](long g) { return vf_var_size(g); },
	[](long g, const double* p, int l) -> unsigned char { return vf_get_byte(g, p, l); }, [](long g, const double* p, int l) { return vf_get_int(g, p, l); },
	[](long g, const double* p, int l) { return vf_get_long(g, p, l); }, [](long g, const double* p, int l) { return vf_get_float(g, p, l); },
	[](long g, const double* p, int l) { return vf_get_double(g, p, l); }, [](long g, void* b, const double* p, int l) { vf_get_buf(g, b, p, l); },
	[](long g) { vf_close(g); }, {}, {} };

#define CPP(g) ((AG*) (g))
#define LV(l) ((l) < 0 ? 0 : (l))
static const Api api_cpp = { "C++",
	[](int t) -> long { return t < 0 ? (long) AG::create() : (long) AG::create((AG::Type) t); },
	[](int t) -> long { return t < 0 ? (long) AG::createArray() : (long) AG::createArray((AG::Type) t); },
	[](int n, int* b, long* d, int* t) -> long {
		std::vector<AG::Type> ty;
		for (int i = 0; i < n; i++) ty.push_back((AG::Type) t[i]);
		return (long) AG::createStruct(n, (unsigned*) b, (unsigned long*) d, &ty[0]);
	},
	[](long g, int n) { CPP(g)->setThreads(n); },
	[](long g, const char* n, const char* v, int l) { if (l < 0) CPP(g)->setParam(n, v); else CPP(g)->setParam(n, v, l); },
	[](long g, const char* f, int l) -> int { return l < 0 ? CPP(g)->open(f) : CPP(g)->open(f, l); },
	[](long g) -> int { return CPP(g)->getDimensions(); },
	[](long g, int n) { return CPP(g)->getMin(n); }, [](long g, int n) { return CPP(g)->getMax(n); },
	[](long g, int n, int l) { return l < 0 ? CPP(g)->getDelta(n) : CPP(g)->getDelta(n, l); },
	[](long g) -> int { return CPP(g)->getVarSize(); },
	[](long g, const double* p, int l) { return l < 0 ? CPP(g)->getByte(p) : CPP(g)->getByte(p, l); },
	[](long g, const double* p, int l) { return l < 0 ? CPP(g)->getInt(p) : CPP(g)->getInt(p, l); },
	[](long g, const double* p, int l) { return l < 0 ? CPP(g)->getLong(p) : CPP(g)->getLong(p, l); },
	[](long g, const double* p, int l) { return l < 0 ? CPP(g)->getFloat(p) : CPP(g)->getFloat(p, l); },
	[](long g, const double* p, int l) { return l < 0 ? CPP(g)->getDouble(p) : CPP(g)->getDouble(p, l); },
	[](long g, void* b, const double* p, int l) { if (l < 0) CPP(g)->getBuf(b, p); else CPP(g)->getBuf(b, p, l); },
	[](long g) { AG::close(CPP(g)); },
	{ AG::SUCCESS, AG::MPI_ERROR, AG::THREAD_ERROR, AG::NUMA_ERROR, AG::UNKNOWN_PARAM, AG::INVALID_VALUE, AG::NOT_INITIALIZED, AG::ALREADY_INITIALIZED,
	  AG::NOT_OPEN, AG::VAR_NOT_FOUND, AG::WRONG_SIZE, AG::UNSUPPORTED_DIMENSIONS, AG::INVALID_VAR_SIZE },
	{ AG::BYTE, AG::INT, AG::LONG, AG::FLOAT, AG::DOUBLE } };

static const Api* apis[] = { &api_cpp, &api_c, &api_f };

/** Index of a type in the documented order */
static int typeIdx(AG::Type t)
{
	for (int i = 0; i < 5; i++) if (api_cpp.types[i] == (int) t) return i;
	return -1;
}

static long make(const Api& a, const VarSpec& v, bool dflt)
{
	int t = a.types[typeIdx(v.type)];
	if (v.kind == BASIC) return a.create(dflt && v.type == AG::FLOAT ? -1 : t);
	if (v.kind == ARRAY) return a.create_array(dflt && v.type == AG::FLOAT ? -1 : t);
	std::vector<int> bl, ty;
	std::vector<long> d;
	for (size_t i = 0; i < v.members.size(); i++) {
		bl.push_back(v.members[i].count); d.push_back(v.members[i].disp); ty.push_back(a.types[typeIdx(v.members[i].type)]);
	}
	return a.create_struct(bl.size(), &bl[0], &d[0], &ty[0]);
}

template<typename T> static bool same(T a, T b) { return memcmp(&a, &b, sizeof a) == 0 || a == b; }

struct Inst
{
	const Api* a;
	long g;
	int level0; // -1: level argument left out
};

/** One value through one interface against the model; "" = equal */
static std::string readCell(const Api& a, long g, const FileSpec& f, const VarSpec& v, size_t cell, const double* pos, int level, int acc)
{
	double x = expectAs<double>(v, cell);
	switch (acc) {
	case 0: if (!convertible<unsigned char>(x)) break; { unsigned char r = a.get_byte(g, pos, level), e = expectAs<unsigned char>(v, cell); if (r != e) return fmt("get_byte %u, stored %u", r, e); return ""; }
	case 1: if (!convertible<int>(x)) break; { int r = a.get_int(g, pos, level), e = expectAs<int>(v, cell); if (r != e) return fmt("get_int %d, stored %d", r, e); return ""; }
	case 2: if (!convertible<long>(x)) break; { long r = a.get_long(g, pos, level), e = expectAs<long>(v, cell); if (r != e) return fmt("get_long %ld, stored %ld", r, e); return ""; }
	case 3: if (!convertible<float>(x)) break; { float r = a.get_float(g, pos, level), e = expectAs<float>(v, cell); if (!same(r, e)) return fmt("get_float %.9g, stored %.9g", r, e); return ""; }
	}
	if (acc != 5 || v.kind == BASIC) {
		double r = a.get_double(g, pos, level);
		if (!same(r, x)) return fmt("get_double %.17g, stored %.17g", r, x);
	}
	std::vector<unsigned char> e, m;
	expectBytes(v, cell, e, m);
	std::vector<unsigned char> b(e.size() + 16, 0xa5);
	a.get_buf(g, &b[0], pos, level);
	for (size_t i = 0; i < e.size(); i++)
		if ((b[i] & m[i]) != (e[i] & m[i])) return fmt("get_buf byte %zu is %02x, stored %02x", i, b[i], e[i]);
	for (size_t i = e.size(); i < b.size(); i++)
		if (b[i] != 0xa5) return "get_buf wrote behind the cell";
	return "";
}

static void modeApi(uint64_t cs)
{
	Rng r(cs);
	static bool constants = false;
	if (!constants) {
		constants = true;
		for (int k = 1; k < 3; k++) {
			for (int i = 0; i < 13; i++) if (apis[k]->errors[i] != api_cpp.errors[i]) report.fail("constant", fmt("error %s is %d in %s and %d in C++", errName((AG::Error) api_cpp.errors[i]), apis[k]->errors[i], apis[k]->name, api_cpp.errors[i]));
			for (int i = 0; i < 5; i++) if (apis[k]->types[i] != api_cpp.types[i]) report.fail("constant", fmt("type %d is %d in %s and %d in C++", i, apis[k]->types[i], apis[k]->name, api_cpp.types[i]));
		}
		report.observe("constants", 2 * 18);
	}
	setTopology(std::vector<int>(1, 0));
	unsigned ng = 1 + r.below(4);
	std::string dir = scratchDir();
	struct G { FileSpec f; VarSpec v; Params p; int fail; std::vector<Inst> in; bool dflt; int level; };
	std::vector<G> gs(ng);
	std::string cfg;
	for (unsigned i = 0; i < ng; i++) {
		G& g = gs[i];
		g.f = randFile(r, dir + fmt("/a%d_%u.nc", getpid(), i), 400);
		g.v = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
		g.p = randBlocks(r, g.f);
		static const char* grids[] = { "FULL", "CACHE", "PASS_THROUGH" };
		g.p["GRID"] = grids[r.below(3)];
		if (r.chance(50)) g.p["CACHE_SIZE"] = fmt("%ld", r.range(1, 9));
		if (r.chance(20)) g.p["VALUE_POSITION"] = "VERTEX_CENTERED";
		g.fail = r.chance(75) ? 0 : 1 + r.below(4);
		if (r.chance(40)) { g.v.name = fmt("q%lu", r.below(9)); g.p["VARIABLE"] = g.v.name; }
		if (g.fail == 2) g.p["VARIABLE"] = "nope";
		if (g.fail == 3) {
			g.f.dims.clear();
			for (int k = 0; k < 5; k++) { DimSpec d; d.size = 2; g.f.dims.push_back(d); }
			g.p.clear();
			if (g.v.name != "z") g.p["VARIABLE"] = g.v.name;
		}
		if (g.fail == 4) {
			g.v = VarSpec(); g.v.kind = STRUCT;
			Member m = { AG::BYTE, 3, 0 };
			g.v.members.push_back(m); g.v.type = AG::BYTE; g.v.cellBytes = 3; g.v.seed = r.next();
			g.p.erase("VARIABLE");
		}
		g.f.vars.push_back(g.v);
		writeFile(g.f);
		g.dflt = r.chance(50);
		g.level = r.chance(30) ? 0 : -1;
		cfg += describe(g.f) + " " + describe(g.v) + " " + pstr(g.p) + fmt("fail=%d; ", g.fail);
	}
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	// handles that come and go in between
	std::vector<long> extra;
	std::set<long> live;
	auto fresh = [&](long h, const char* what) {
		if (!live.insert(h).second) report.fail("handle", fmt("%s: handle %ld is already in use by another grid", what, h));
	};
	for (unsigned i = 0; i < ng; i++)
		for (int k = 0; k < 3; k++) {
			G& g = gs[i];
			const Api& a = *apis[k];
			if (k == 2) {
				while (r.chance(40)) { long h = a.create(a.types[1]); fresh(h, "create"); extra.push_back(h); }
				if (extra.size() && r.chance(40)) { size_t x = r.below(extra.size()); a.close(extra[x]); live.erase(extra[x]); extra.erase(extra.begin() + x); }
			}
			Inst in = { &a, 0, g.level };
			if (g.fail == 4) in.g = a.create_array(a.types[typeIdx(usable(ARRAY, AG::DOUBLE))]);
			else in.g = make(a, g.v, g.dflt);
			if (k == 2) { fresh(in.g, "create"); if (in.g < 0) report.fail("handle", fmt("negative handle %ld", in.g)); }
			g.in.push_back(in);
			if (r.chance(50)) a.set_threads(in.g, 1);
			for (Params::const_iterator p = g.p.begin(); p != g.p.end(); ++p) a.set_param(in.g, p->first.c_str(), p->second.c_str(), in.level0);
		}
	uint64_t n = 0;
	for (unsigned i = 0; i < ng; i++) {
		G& g = gs[i];
		static const AG::Error expect[] = { AG::SUCCESS, AG::NOT_OPEN, AG::VAR_NOT_FOUND, AG::UNSUPPORTED_DIMENSIONS, AG::INVALID_VAR_SIZE };
		for (int k = 0; k < 3; k++) {
			int e = g.in[k].a->open(g.in[k].g, g.fail == 1 ? (dir + "/nothing").c_str() : g.f.path.c_str(), g.in[k].level0);
			int want = -1;
			for (int x = 0; x < 13; x++) if (api_cpp.errors[x] == expect[g.fail]) want = g.in[k].a->errors[x];
			if (e != want) report.fail(std::string("error:") + g.in[k].a->name, fmt("open through %s returned %d, its constant for %s is %d", g.in[k].a->name, e, errName(expect[g.fail]), want));
			report.observe(std::string("open_") + errName(expect[g.fail]));
		}
	}
	for (int q = 0; q < 120; q++) {
		G& g = gs[r.below(ng)];
		if (g.fail) continue;
		Inst& in = g.in[r.below(3)];
		Inst& ref = g.in[0];
		const Api& a = *in.a;
		std::string who = a.name;
		if (q % 8 == 0) {
			if (a.dimensions(in.g) != (int) g.f.nd()) report.fail("dimensions:" + who, fmt("%d, the file has %u", a.dimensions(in.g), g.f.nd()));
			if (a.var_size(in.g) != (int) varBytes(g.v)) report.fail("var_size:" + who, fmt("%d, a cell has %zu bytes", a.var_size(in.g), varBytes(g.v)));
			for (unsigned d = 0; d < g.f.nd(); d++) {
				if (!same(a.min(in.g, d), ref.a->min(ref.g, d))) report.fail("min:" + who, fmt("dimension %u: %.17g, C++ %.17g", d, a.min(in.g, d), ref.a->min(ref.g, d)));
				if (!same(a.max(in.g, d), ref.a->max(ref.g, d))) report.fail("max:" + who, fmt("dimension %u: %.17g, C++ %.17g", d, a.max(in.g, d), ref.a->max(ref.g, d)));
				if (!same(a.delta(in.g, d, in.level0), ref.a->delta(ref.g, d, 0))) report.fail("delta:" + who, fmt("dimension %u: %.17g, C++ %.17g", d, a.delta(in.g, d, in.level0), ref.a->delta(ref.g, d, 0)));
			}
		}
		size_t cell = r.below(g.f.cells()), idx[MAXD];
		double pos[MAXD] = { 0 };
		g.f.unlinear(cell, idx);
		jitter(r, g.f, idx, pos);
		int acc = r.below(6);
		std::string m = readCell(a, in.g, g.f, g.v, cell, pos, in.level0, acc);
		if (!m.empty()) report.fail(fmt("value:%s:%d", a.name, acc), fmt("cell %zu: %s", cell, m.c_str()));
		n++;
		report.observe("values_" + who);
	}
	// a second level through the interfaces
	for (unsigned i = 0; i < ng; i++) {
		G& g = gs[i];
		if (g.fail || g.v.kind == BASIC ? g.fail != 0 : false) continue;
		FileSpec f2 = randFile(r, dir + fmt("/a%d_l.nc", getpid()), 100, g.f.nd());
		VarSpec v2 = g.v;
		v2.seed = r.next() | 1;
		f2.vars.push_back(v2);
		writeFile(f2);
		int lv = 1 + r.below(2);
		for (int k = 0; k < 3; k++) {
			Inst& in = g.in[k];
			for (Params::const_iterator p = g.p.begin(); p != g.p.end(); ++p) in.a->set_param(in.g, p->first.c_str(), p->second.c_str(), lv);
			int e = in.a->open(in.g, f2.path.c_str(), lv);
			if (e != in.a->errors[0]) { report.fail(std::string("error:") + in.a->name, fmt("opening level %d through %s returned %d", lv, in.a->name, e)); continue; }
			for (int q = 0; q < 12; q++) {
				size_t cell = r.below(f2.cells()), idx[MAXD];
				double pos[MAXD] = { 0 };
				f2.unlinear(cell, idx);
				jitter(r, f2, idx, pos);
				int acc = r.below(6);
				std::string m = readCell(*in.a, in.g, f2, v2, cell, pos, lv, acc);
				if (!m.empty()) report.fail(fmt("value:%s:level:%d", in.a->name, acc), fmt("level %d cell %zu: %s", lv, cell, m.c_str()));
				n++;
			}
			for (unsigned d = 0; d < f2.nd(); d++)
				if (!same(in.a->delta(in.g, d, lv), api_cpp.delta(g.in[0].g, d, lv)))
					report.fail(std::string("delta:") + in.a->name, fmt("level %d dimension %u: %.17g, C++ %.17g", lv, d, in.a->delta(in.g, d, lv), api_cpp.delta(g.in[0].g, d, lv)));
		}
		unlink(f2.path.c_str());
		report.observe("levels");
		break;
	}
	for (unsigned i = 0; i < ng; i++) {
		for (int k = 0; k < 3; k++) gs[i].in[k].a->close(gs[i].in[k].g);
		unlink(gs[i].f.path.c_str());
	}
	for (size_t i = 0; i < extra.size(); i++) api_f.close(extra[i]);
	report.observe("values_compared", n);
	report.eval(ng > 1 ? cfg : "");
	report.sample(cfg);
}

/** Threads create, use and close their own grids through handles at the same time */
static void modeApiMt(uint64_t cs)
{
	Rng r(cs);
	setTopology(std::vector<int>(1, 0));
	unsigned T = 2 + r.below(5);
	std::string dir = scratchDir();
	FileSpec f = randFile(r, dir + fmt("/t%d.nc", getpid()), 200);
	for (unsigned t = 0; t < T; t++) {
		VarSpec v = randVar(r, (Kind) r.below(3), (AG::Type) r.below(5));
		v.name = fmt("t%u", t);
		f.vars.push_back(v);
	}
	writeFile(f);
	std::string cfg = fmt("thr=%u ", T) + describe(f);
	report.context(fmt("case=%llu %s", (unsigned long long) cs, cfg.c_str()));
	std::mutex lm;
	std::set<long> live;
	std::string bad, key;
	uint64_t qs = r.next();
	int rounds = 2 + r.below(6);
	if (r.chance(60)) perturb(r.range(1, 25), r.range(0, 150), r.next());
	std::atomic<uint64_t> n(0), handles(0);
	Gate gate(T);
	Team::run(T, [&](unsigned t) {
		Rng q(mix(qs + t));
		const VarSpec& v = f.vars[t];
		gate.wait();
		for (int i = 0; i < rounds; i++) {
			const Api& a = q.chance(75) ? api_f : api_c;
			long many[6];
			int m = 1 + q.below(6);
			for (int k = 0; k < m; k++) many[k] = k == 0 ? make(a, v, false) : a.create(a.types[1]);
			if (&a == &api_f) {
				std::lock_guard<std::mutex> l(lm);
				for (int k = 0; k < m; k++) if (!live.insert(many[k]).second && bad.empty()) { key = "handle"; bad = fmt("handle %ld given to two grids", many[k]); }
				handles += m;
			}
			auto done = [&](int k) {
				if (&a == &api_f) { std::lock_guard<std::mutex> l(lm); live.erase(many[k]); }
				a.close(many[k]);
			};
			for (int k = 1; k < m; k++) if (q.chance(50)) { done(k); many[k] = -1; }
			a.set_param(many[0], "VARIABLE", v.name.c_str(), -1);
			a.set_param(many[0], "GRID", q.chance(50) ? "CACHE" : "FULL", -1);
			a.set_param(many[0], "CACHE_SIZE", "2", -1);
			a.set_param(many[0], "BLOCK_SIZE_0", "3", -1);
			int e = a.open(many[0], f.path.c_str(), -1);
			if (e != a.errors[0]) { std::lock_guard<std::mutex> l(lm); if (bad.empty()) { key = std::string("open:") + a.name; bad = fmt("thread %u: open returned %d", t, e); } }
			else
				for (int k = 0; k < 12; k++) {
					size_t cell = q.below(f.cells()), idx[MAXD];
					double pos[MAXD] = { 0 };
					f.unlinear(cell, idx);
					jitter(q, f, idx, pos);
					std::string s = readCell(a, many[0], f, v, cell, pos, -1, q.below(6));
					n++;
					if (!s.empty()) { std::lock_guard<std::mutex> l(lm); if (bad.empty()) { key = std::string("mt-value:") + a.name; bad = fmt("thread %u cell %zu: %s", t, cell, s.c_str()); } }
				}
			for (int k = 0; k < m; k++) if (many[k] >= 0) done(k);
		}
	});
	perturb(0, 0, 0);
	if (!bad.empty()) report.fail(key, bad);
	unlink(f.path.c_str());
	report.observe("mt_values", n);
	report.observe("mt_handles", handles);
	report.eval(cfg);
	report.sample(cfg);
}

int main(int argc, char** argv)
{
	Args a(argc, argv);
	vf_constants(api_f.errors, api_f.types);
	std::string mode = a.str("mode", "api");
	uint64_t seedBase = a.num("seed", 1);
	long first = a.num("first", 0), n = a.num("n", 10);
	uint64_t overlap = 0;
	for (long i = first; i < first + n; i++) {
		uint64_t cs = a.kv.count("case") ? strtoull(a.kv["case"].c_str(), 0, 10) : (mix(seedBase * 1000003 + i) & 0xffffffffffull) / 40 * 40 + i % 40;
		if (mode == "api") modeApi(cs);
		else if (mode == "api_mt") modeApiMt(cs);
		else { fprintf(stderr, "HARNESS-ERROR unknown mode\n"); return 96; }
		if (libraryOverlap() != overlap) {
			report.fail("netcdf-overlap", fmt("%lu netCDF calls overlapped", (unsigned long) (libraryOverlap() - overlap)));
			overlap = libraryOverlap();
		}
		if (a.kv.count("case")) break;
	}
	report.write();
	return 0;
}
