// Reference model: what a grid file contains and what ASAGI must return for it.
// Written from the documentation (usage.h), not from the implementation.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H
#include <cmath>
#include <limits>
#include <map>
#include <set>
#include <netcdf.h>
#include <pthread.h>
#include <string>
#include <unistd.h>
#include <vector>

#include "asagi.h"

#include "hooks.h"
#include "report.h"

namespace vf {

typedef asagi::Grid AG;

/** Dimensions supported by the build */
enum { MAXD = MAX_DIMENSIONS };

enum Kind { BASIC, ARRAY, STRUCT };

inline size_t typeBytes(AG::Type t)
{
	switch (t) {
	case AG::BYTE: return 1;
	case AG::INT: return 4;
	case AG::LONG: return 8;
	case AG::FLOAT: return 4;
	case AG::DOUBLE: return 8;
	}
	return 0;
}

inline const char* typeName(AG::Type t)
{
	static const char* n[] = { "byte", "int", "long", "float", "double" };
	return n[(int) t];
}

inline nc_type ncTypeOf(AG::Type t)
{
	switch (t) {
	case AG::BYTE: return NC_UBYTE;
	case AG::INT: return NC_INT;
	case AG::LONG: return NC_INT64;
	case AG::FLOAT: return NC_FLOAT;
	case AG::DOUBLE: return NC_DOUBLE;
	}
	return NC_NAT;
}

/** One member of a compound file type */
struct Member { AG::Type type; unsigned count; unsigned long disp; };

/** One netCDF variable (= one grid level) */
struct VarSpec
{
	std::string name;
	Kind kind;
	AG::Type type;              // element type (BASIC: type used to create the grid)
	nc_type fileType;           // BASIC: type of the variable in the file
	unsigned arrayLen;          // ARRAY
	std::vector<Member> members;// STRUCT
	size_t cellBytes;           // bytes per cell as stored by ARRAY/STRUCT
	uint64_t seed;              // values
	bool fullRange;             // values over the whole type range (native accessors only)

	VarSpec() : name("z"), kind(BASIC), type(AG::FLOAT), fileType(NC_FLOAT), arrayLen(1),
		cellBytes(4), seed(1), fullRange(false) {}
};

struct DimSpec
{
	size_t size;
	bool coord;      // a coordinate variable exists
	double off, step;// coordinate i = off + i*step
	int odd;         // unusual coordinate variable (see OddCoord), 0: doubles
	DimSpec() : size(1), coord(false), off(0), step(1), odd(0) {}
};

/** Unusual coordinate variables; from ODD_CHAR on they do not describe coordinates,
 * from ODD_CONST on they describe useless ones */
enum OddCoord { ODD_NONE, ODD_INT, ODD_FLOAT, ODD_CHAR, ODD_2D, ODD_SCALAR, ODD_SHORT, ODD_CONST, ODD_NAN, ODD_INF, ODD_HUGE, ODD_DENORMAL };

/** Grid shape; dimension 0 is ASAGI's dimension 0 (= last dimension in the file) */
struct FileSpec
{
	std::string path;
	std::vector<DimSpec> dims;
	std::vector<VarSpec> vars;
	bool classic;    // netCDF classic format (basic types only)
	FileSpec() : classic(false) {}

	unsigned nd() const { return dims.size(); }
	size_t cells() const { size_t n = 1; for (unsigned i = 0; i < nd(); i++) n *= dims[i].size; return n; }

	/** Linear cell number in file order (dimension 0 fastest) */
	size_t linear(const size_t* idx) const
	{
		size_t l = 0;
		for (int i = nd() - 1; i >= 0; i--)
			l = l * dims[i].size + idx[i];
		return l;
	}
	void unlinear(size_t l, size_t* idx) const
	{
		for (unsigned i = 0; i < nd(); i++) { idx[i] = l % dims[i].size; l /= dims[i].size; }
	}
};

inline uint64_t cellHash(const VarSpec& v, size_t cell, unsigned comp) { return mix(v.seed * 0x9e3779b97f4a7c15ull + cell * 64 + comp); }

/**
 * The value in the file as a double (all generated values of basic variables
 * are exactly representable in a double, except full range 64 bit integers,
 * which are handled by fileInt).
 */
inline double fileDouble(const VarSpec& v, size_t cell)
{
	uint64_t h = cellHash(v, cell, 0);
	switch (v.fileType) {
	case NC_BYTE: return (double) (h % 128);
	case NC_UBYTE: return (double) (h % 256);
	case NC_SHORT: return v.fullRange ? (double) (int16_t) h : (double) (h % 30000);
	case NC_INT: return v.fullRange ? (double) (int32_t) h : (double) (h % 2000000);
	case NC_INT64: return v.fullRange ? (double) (int64_t) h : (double) (h % 4000000);
	case NC_FLOAT: {
		if (v.fullRange) { float f = (float) ((int64_t) h % 16777216) * 0x1p-9f; return (h >> 60) == 3 ? f * 1e20f : f; }
		return (double) ((float) (h % 65536) * 0.25f);
	}
	case NC_DOUBLE: {
		if (v.fullRange) return (double) ((int64_t) h >> 11) * ((h & 7) == 3 ? 1e-180 : ((h & 7) == 4 ? 1e150 : 0x1p-13));
		return (double) (h % 67108864) * 0.0078125;
	}
	}
	return 0;
}

inline int64_t fileInt64(const VarSpec& v, size_t cell)
{
	uint64_t h = cellHash(v, cell, 0);
	return v.fullRange ? (int64_t) h : (int64_t) (h % 4000000);
}

/** Raw bytes of the member values of an array/struct cell (padding = 0xPP pattern is not compared) */
inline void cellBytesOf(const VarSpec& v, size_t cell, unsigned char* out, unsigned char* mask)
{
	memset(out, 0, v.cellBytes);
	if (mask) memset(mask, 0, v.cellBytes);
	std::vector<Member> ms;
	if (v.kind == ARRAY) { Member m = { v.type, v.arrayLen, 0 }; ms.push_back(m); }
	else ms = v.members;
	unsigned comp = 0;
	for (size_t i = 0; i < ms.size(); i++)
		for (unsigned k = 0; k < ms[i].count; k++, comp++) {
			uint64_t h = cellHash(v, cell, comp);
			unsigned char* p = out + ms[i].disp + k * typeBytes(ms[i].type);
			switch (ms[i].type) {
			case AG::BYTE: { unsigned char x = h % 251; memcpy(p, &x, 1); break; }
			case AG::INT: { int x = h % 1000003; memcpy(p, &x, 4); break; }
			case AG::LONG: { long x = h % 100000000003ull; memcpy(p, &x, 8); break; }
			case AG::FLOAT: { float x = (h % 65536) * 0.5f; memcpy(p, &x, 4); break; }
			case AG::DOUBLE: { double x = (h % 16777216) * 0.125; memcpy(p, &x, 8); break; }
			}
			if (mask) memset(mask + ms[i].disp + k * typeBytes(ms[i].type), 0xff, typeBytes(ms[i].type));
		}
}

#define VF_NC(X) do { int vf_r = (X); if (vf_r != NC_NOERR) { fprintf(stderr, "HARNESS-ERROR netCDF %s: %s\n", #X, nc_strerror(vf_r)); _exit(96); } } while (0)

/** Writes the file described by <code>f</code> */
inline void writeFile(const FileSpec& f)
{
	Quiet q;
	int nc;
	VF_NC(nc_create(f.path.c_str(), f.classic ? (NC_CLOBBER | NC_64BIT_OFFSET) : (NC_CLOBBER | NC_NETCDF4), &nc));
	// File order: last ASAGI dimension first
	std::vector<int> dimIds(f.nd()), coordIds(f.nd(), -1);
	for (unsigned i = 0; i < f.nd(); i++) {
		std::string n = fmt("d%u", i);
		VF_NC(nc_def_dim(nc, n.c_str(), f.dims[i].size, &dimIds[f.nd() - i - 1]));
		if (f.dims[i].coord) {
			int odd = f.dims[i].odd, two[2] = { dimIds[f.nd() - i - 1], dimIds[f.nd() - i - 1] }, half;
			if (odd == ODD_SHORT) { // the variable belongs to another, shorter dimension
				VF_NC(nc_def_dim(nc, (n + "_s").c_str(), 1, &half));
				two[0] = half;
			}
			nc_type ct = odd == ODD_INT ? NC_INT : (odd == ODD_FLOAT ? NC_FLOAT : (odd == ODD_CHAR ? NC_CHAR : NC_DOUBLE));
			VF_NC(nc_def_var(nc, n.c_str(), ct, odd == ODD_2D ? 2 : (odd == ODD_SCALAR ? 0 : 1), two, &coordIds[i]));
		}
	}
	std::vector<int> vid(f.vars.size());
	for (size_t k = 0; k < f.vars.size(); k++) {
		const VarSpec& v = f.vars[k];
		nc_type t = v.fileType;
		if (v.kind != BASIC) {
			VF_NC(nc_def_compound(nc, v.cellBytes, fmt("t_%s", v.name.c_str()).c_str(), &t));
			std::vector<Member> ms;
			if (v.kind == ARRAY) { Member m = { v.type, v.arrayLen, 0 }; ms.push_back(m); }
			else ms = v.members;
			for (size_t i = 0; i < ms.size(); i++) {
				int n = ms[i].count;
				if (n == 1)
					VF_NC(nc_insert_compound(nc, t, fmt("m%zu", i).c_str(), ms[i].disp, ncTypeOf(ms[i].type)));
				else
					VF_NC(nc_insert_array_compound(nc, t, fmt("m%zu", i).c_str(), ms[i].disp, ncTypeOf(ms[i].type), 1, &n));
			}
		}
		VF_NC(nc_def_var(nc, v.name.c_str(), t, f.nd(), f.nd() ? &dimIds[0] : 0, &vid[k]));
	}
	VF_NC(nc_enddef(nc));
	for (unsigned i = 0; i < f.nd(); i++)
		if (f.dims[i].coord) {
			int odd = f.dims[i].odd;
			if (odd == ODD_CHAR) {
				std::vector<char> c(f.dims[i].size, 'a');
				VF_NC(nc_put_var_text(nc, coordIds[i], &c[0]));
				continue;
			}
			std::vector<double> c(f.dims[i].size * (odd == ODD_2D ? f.dims[i].size : 1));
			for (size_t j = 0; j < c.size(); j++) {
				c[j] = f.dims[i].off + j * f.dims[i].step;
				if (odd == ODD_CONST) c[j] = f.dims[i].off;
				if (odd == ODD_NAN) c[j] = j == 0 && f.dims[i].step > 0 ? 1. : std::numeric_limits<double>::quiet_NaN();
				if (odd == ODD_INF) c[j] = j == 0 && f.dims[i].step > 0 ? 1. : std::numeric_limits<double>::infinity();
				if (odd == ODD_HUGE) c[j] = (j == 0 ? -1.5e308 : 1.5e308) * (f.dims[i].step > 0 ? 1 : -1);
				if (odd == ODD_DENORMAL) c[j] = j * 4.9e-324 * (f.dims[i].step > 0 ? 1 : -1);
			}
			VF_NC(nc_put_var_double(nc, coordIds[i], &c[0]));
		}
	size_t n = f.cells();
	for (size_t k = 0; k < f.vars.size(); k++) {
		const VarSpec& v = f.vars[k];
		if (v.kind != BASIC) {
			std::vector<unsigned char> b(n * v.cellBytes);
			for (size_t c = 0; c < n; c++)
				cellBytesOf(v, c, &b[c * v.cellBytes], 0);
			VF_NC(nc_put_var(nc, vid[k], &b[0]));
		} else if (v.fileType == NC_INT64) {
			std::vector<long long> b(n);
			for (size_t c = 0; c < n; c++) b[c] = fileInt64(v, c);
			VF_NC(nc_put_var_longlong(nc, vid[k], &b[0]));
		} else if (v.fileType == NC_FLOAT) {
			std::vector<float> b(n);
			for (size_t c = 0; c < n; c++) b[c] = (float) fileDouble(v, c);
			VF_NC(nc_put_var_float(nc, vid[k], &b[0]));
		} else {
			std::vector<double> b(n);
			for (size_t c = 0; c < n; c++) b[c] = fileDouble(v, c);
			VF_NC(nc_put_var_double(nc, vid[k], &b[0]));
		}
	}
	VF_NC(nc_close(nc));
}

/** Stored value of a BASIC cell: file type converted to the grid type */
template<typename T> inline T storedBasic(const VarSpec& v, size_t cell)
{
	if (v.fileType == NC_INT64)
		return (T) fileInt64(v, cell);
	return (T) fileDouble(v, cell);
}

/** Value returned by an accessor of C type B */
template<typename B> inline B expectAs(const VarSpec& v, size_t cell)
{
	if (v.kind != BASIC) {
		std::vector<unsigned char> b(v.cellBytes);
		cellBytesOf(v, cell, &b[0], 0);
		AG::Type t = v.kind == ARRAY ? v.type : v.members[0].type;
		switch (t) {
		case AG::BYTE: { unsigned char x; memcpy(&x, &b[0], sizeof x); return (B) x; }
		case AG::INT: { int x; memcpy(&x, &b[0], sizeof x); return (B) x; }
		case AG::LONG: { long x; memcpy(&x, &b[0], sizeof x); return (B) x; }
		case AG::FLOAT: { float x; memcpy(&x, &b[0], sizeof x); return (B) x; }
		case AG::DOUBLE: { double x; memcpy(&x, &b[0], sizeof x); return (B) x; }
		}
	}
	switch (v.type) {
	case AG::BYTE: return (B) storedBasic<unsigned char>(v, cell);
	case AG::INT: return (B) storedBasic<int>(v, cell);
	case AG::LONG: return (B) storedBasic<long>(v, cell);
	case AG::FLOAT: return (B) storedBasic<float>(v, cell);
	case AG::DOUBLE: return (B) storedBasic<double>(v, cell);
	}
	return B();
}

/** Bytes returned by getBuf (mask: bytes that are defined) */
inline void expectBytes(const VarSpec& v, size_t cell, std::vector<unsigned char>& out, std::vector<unsigned char>& mask)
{
	if (v.kind != BASIC) {
		out.resize(v.cellBytes);
		mask.resize(v.cellBytes);
		cellBytesOf(v, cell, &out[0], &mask[0]);
		return;
	}
	out.assign(typeBytes(v.type), 0);
	mask.assign(typeBytes(v.type), 0xff);
	switch (v.type) {
	case AG::BYTE: { unsigned char x = storedBasic<unsigned char>(v, cell); memcpy(&out[0], &x, sizeof x); break; }
	case AG::INT: { int x = storedBasic<int>(v, cell); memcpy(&out[0], &x, sizeof x); break; }
	case AG::LONG: { long x = storedBasic<long>(v, cell); memcpy(&out[0], &x, sizeof x); break; }
	case AG::FLOAT: { float x = storedBasic<float>(v, cell); memcpy(&out[0], &x, sizeof x); break; }
	case AG::DOUBLE: { double x = storedBasic<double>(v, cell); memcpy(&out[0], &x, sizeof x); break; }
	}
}

inline size_t varBytes(const VarSpec& v) { return v.kind == BASIC ? typeBytes(v.type) : v.cellBytes; }

/** Range in which conversions from the stored value to B are defined */
template<typename B> inline bool convertible(double x)
{
	if (std::numeric_limits<B>::is_integer)
		return x > (double) std::numeric_limits<B>::min() - 1.0 && x < (double) std::numeric_limits<B>::max() * (1 - 1e-15) + 1.0 - (sizeof(B) == 8 ? 2048.0 : 0.0);
	return std::fabs(x) < std::numeric_limits<B>::max() || x == 0;
}

/** Coordinate of the centre of cell index i in dimension n */
inline double coordOf(const DimSpec& d, size_t i)
{
	if (d.size == 1)
		return d.coord ? d.off : 0;
	if (!d.coord)
		return (double) i;
	return d.off + i * d.step;
}

/** Reads one cell through every legal accessor and compares with the model.
 * Returns "" or a description of the mismatch. */
inline std::string compareCell(AG* g, const FileSpec& f, const VarSpec& v, size_t cell, const double* pos, unsigned level, unsigned accessors)
{
	// accessors: bit 0 byte, 1 int, 2 long, 3 float, 4 double, 5 buf
	(void) f;
	double x = v.kind == BASIC ? (v.fileType == NC_INT64 ? (double) fileInt64(v, cell) : fileDouble(v, cell)) : 0;
	AG::Type t = v.kind == STRUCT ? v.members[0].type : v.type;
	bool native[5];
	for (int i = 0; i < 5; i++)
		native[i] = v.fullRange ? (t == (AG::Type) i) : true;
	if (v.kind != BASIC)
		x = (double) expectAs<double>(v, cell);
	if ((accessors & 1) && native[0] && convertible<unsigned char>(x)) {
		unsigned char r = g->getByte(pos, level), e = expectAs<unsigned char>(v, cell);
		if (r != e) return fmt("getByte=%u expected %u", r, e);
	}
	if ((accessors & 2) && native[1] && convertible<int>(x)) {
		int r = g->getInt(pos, level), e = expectAs<int>(v, cell);
		if (r != e) return fmt("getInt=%d expected %d", r, e);
	}
	if ((accessors & 4) && native[2] && convertible<long>(x)) {
		long r = g->getLong(pos, level), e = expectAs<long>(v, cell);
		if (r != e) return fmt("getLong=%ld expected %ld", r, e);
	}
	if ((accessors & 8) && native[3] && convertible<float>(x)) {
		float r = g->getFloat(pos, level), e = expectAs<float>(v, cell);
		if (memcmp(&r, &e, sizeof r)) return fmt("getFloat=%.9g expected %.9g", r, e);
	}
	if ((accessors & 16) && native[4]) {
		double r = g->getDouble(pos, level), e = expectAs<double>(v, cell);
		if (memcmp(&r, &e, sizeof r)) return fmt("getDouble=%.17g expected %.17g", r, e);
	}
	if (accessors & 32) {
		std::vector<unsigned char> e, m;
		expectBytes(v, cell, e, m);
		// guard bytes detect writes beyond getVarSize()
		std::vector<unsigned char> b(e.size() + 32, 0xA5);
		g->getBuf(&b[16], pos, level);
		for (size_t i = 0; i < e.size(); i++)
			if (m[i] && b[16 + i] != e[i])
				return fmt("getBuf byte %zu=%02x expected %02x", i, b[16 + i], e[i]);
		for (int i = 0; i < 16; i++)
			if (b[i] != 0xA5 || b[16 + e.size() + i] != 0xA5)
				return fmt("getBuf wrote outside its %zu bytes", e.size());
	}
	return "";
}

// ---- thread teams --------------------------------------------------------
struct Team
{
	struct Arg { Team* t; unsigned idx; int cpu; };
	void (*fn)(unsigned, void*);
	void* ctx;
	static void* entry(void* p)
	{
		Arg* a = (Arg*) p;
		setThread(a->idx, a->cpu);
		a->t->fn(a->idx, a->t->ctx);
		return 0;
	}
	/** Runs fn(idx) on n fresh threads; thread i pretends to run on cpu i */
	template<typename F> static void run(unsigned n, F f)
	{
		Team t;
		t.fn = &call<F>;
		t.ctx = &f;
		std::vector<pthread_t> th(n);
		std::vector<Arg> a(n);
		for (unsigned i = 0; i < n; i++) {
			a[i].t = &t; a[i].idx = i; a[i].cpu = i;
			if (pthread_create(&th[i], 0, &entry, &a[i])) { fprintf(stderr, "HARNESS-ERROR pthread_create\n"); _exit(96); }
		}
		for (unsigned i = 0; i < n; i++)
			pthread_join(th[i], 0);
	}
	template<typename F> static void call(unsigned i, void* c) { (*(F*) c)(i); }
};

/** Plain barrier of the harness (not ASAGI's) */
struct Gate
{
	pthread_barrier_t b;
	Gate(unsigned n) { pthread_barrier_init(&b, 0, n); }
	~Gate() { pthread_barrier_destroy(&b); }
	void wait() { pthread_barrier_wait(&b); }
};

inline AG* createGrid(const VarSpec& v)
{
	if (v.kind == BASIC) return AG::create(v.type);
	if (v.kind == ARRAY) return AG::createArray(v.type);
	std::vector<unsigned> bl; std::vector<unsigned long> d; std::vector<AG::Type> t;
	for (size_t i = 0; i < v.members.size(); i++) {
		bl.push_back(v.members[i].count); d.push_back(v.members[i].disp); t.push_back(v.members[i].type);
	}
	return AG::createStruct(bl.size(), &bl[0], &d[0], &t[0]);
}

inline std::string scratchDir()
{
	const char* s = getenv("VERIF_SCRATCH");
	return s && *s ? s : ".";
}

// ---- random generation ---------------------------------------------------
/** Builds with few instantiated types (ASAGI_VERIF_TYPELIST) replace the others */
inline AG::Type usable(Kind kind, AG::Type type)
{
#ifdef ASAGI_VERIF_TYPELIST
	if (kind == ARRAY) return AG::FLOAT;
	if (kind == STRUCT) return AG::INT;
	return type == AG::FLOAT || type == AG::DOUBLE ? AG::DOUBLE : AG::INT;
#else
	(void) kind;
	return type;
#endif
}

inline VarSpec randVar(Rng& r, Kind kind, AG::Type type)
{
	type = usable(kind, type);
	VarSpec v;
	v.kind = kind;
	v.type = type;
	v.seed = r.next() | 1;
	v.fullRange = r.chance(40);
	if (kind == BASIC) {
		v.fileType = ncTypeOf(type);
		if (r.chance(35)) {
			// the file stores another basic type: netCDF converts
			static const nc_type all[] = { NC_UBYTE, NC_SHORT, NC_INT, NC_INT64, NC_FLOAT, NC_DOUBLE, NC_BYTE };
			v.fileType = all[r.below(7)];
			v.fullRange = false;
			// keep conversions in range
			if (type == AG::BYTE && v.fileType != NC_UBYTE && v.fileType != NC_BYTE)
				v.fileType = NC_UBYTE;
		}
		v.cellBytes = typeBytes(type);
	} else if (kind == ARRAY) {
		v.fullRange = false;
		static const unsigned lens[] = { 1, 2, 3, 5, 7, 16 };
		v.arrayLen = lens[r.below(6)];
		v.cellBytes = v.arrayLen * typeBytes(type);
	} else {
		v.fullRange = false;
		unsigned n = 1 + r.below(4);
		unsigned long off = 0;
		size_t maxAl = 1;
		for (unsigned i = 0; i < n; i++) {
			Member m;
			m.type = i == 0 ? type : (AG::Type) r.below(5);
			m.count = r.chance(60) ? 1 : 1 + r.below(4);
			size_t al = typeBytes(m.type);
			if (al > maxAl) maxAl = al;
			off = (off + al - 1) / al * al;
			m.disp = off;
			off += al * m.count;
			v.members.push_back(m);
		}
		v.cellBytes = (off + maxAl - 1) / maxAl * maxAl;
	}
	return v;
}

inline FileSpec randFile(Rng& r, const std::string& path, size_t maxCells, unsigned nd = 0)
{
	FileSpec f;
	f.path = path;
	if (!nd) nd = 1 + r.below(MAXD);
	size_t left = maxCells;
	for (unsigned i = 0; i < nd; i++) {
		DimSpec d;
		size_t lim = i + 1 == nd ? left : (size_t) std::pow((double) left, 1.0 / (nd - i)) * 2;
		if (lim < 1) lim = 1;
		if (lim > left) lim = left;
		d.size = r.chance(10) ? 1 : 1 + r.below(lim);
		left /= d.size;
		if (left < 1) left = 1;
		d.coord = r.chance(70);
		if (d.coord) {
			static const double steps[] = { 1, 0.5, 2, 0.1, 1e-3, 100, 3.7, -1, -0.25, -7.3, 1e5 };
			d.step = steps[r.below(11)];
			d.off = r.chance(30) ? 0 : r.range(-1000, 1000) * 0.37;
		}
		f.dims.push_back(d);
	}
	return f;
}

inline std::string describe(const FileSpec& f)
{
	std::string s = "dims=";
	for (unsigned i = 0; i < f.nd(); i++)
		s += fmt("%s%zu", i ? "x" : "", f.dims[i].size);
	return s;
}

inline std::string describe(const VarSpec& v)
{
	if (v.kind == BASIC) return fmt("basic<%s>file%d%s", typeName(v.type), v.fileType, v.fullRange ? "F" : "");
	if (v.kind == ARRAY) return fmt("array<%s>[%u]", typeName(v.type), v.arrayLen);
	std::string s = "struct{";
	for (size_t i = 0; i < v.members.size(); i++)
		s += fmt("%s*%u@%lu,", typeName(v.members[i].type), v.members[i].count, v.members[i].disp);
	return s + "}";
}

}
#endif
