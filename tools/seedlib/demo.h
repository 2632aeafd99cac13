// Helpers of the demonstrations
#ifndef DEMO_H
#define DEMO_H
#include <asagi.h>
#include <netcdf.h>
#include <pthread.h>
#include <sched.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>

typedef asagi::Grid G;

#define NC(x) do { int e_ = (x); if (e_) { fprintf(stderr, "demo: %s: %s\n", #x, nc_strerror(e_)); exit(3); } } while (0)
#define CHECK(c, ...) do { if (!(c)) { fprintf(stderr, "DEMO FAILED: " __VA_ARGS__); fprintf(stderr, "\n"); fflush(stderr); _exit(1); } } while (0)

/** A file with an int variable z of the given extents, value = linear index + base; dimension 0 of the grid is the last of the file */
static inline void writeFile(const char* name, std::vector<size_t> dims, int base = 0, const char* var = "z")
{
	int nc, v, d[8];
	NC(nc_create(name, NC_CLOBBER | NC_NETCDF4, &nc));
	size_t n = 1;
	int nd = dims.size();
	for (int i = 0; i < nd; i++) {
		char b[8]; snprintf(b, 8, "d%d", i);
		NC(nc_def_dim(nc, b, dims[i], &d[nd - 1 - i]));
		n *= dims[i];
	}
	NC(nc_def_var(nc, var, NC_INT, nd, d, &v));
	NC(nc_enddef(nc));
	std::vector<int> x(n);
	for (size_t i = 0; i < n; i++) x[i] = base + i;
	NC(nc_put_var_int(nc, v, &x[0]));
	NC(nc_close(nc));
}

#ifdef DEMO_NUMA
/** The topology: every thread tells its node */
static __thread int demoNode = 0;
extern "C" int sched_getcpu(void) throw() { return demoNode; }
extern "C" int numa_node_of_cpu(int cpu) { return cpu; }
#endif

/** Runs f(thread) in n threads */
template<typename F>
static void parallel(int n, F f)
{
	struct Arg { F* f; int i; };
	struct R { static void* run(void* p) { Arg* a = (Arg*) p; (*a->f)(a->i); return 0L; } };
	std::vector<pthread_t> t(n);
	std::vector<Arg> a(n);
	for (int i = 0; i < n; i++) { a[i].f = &f; a[i].i = i; pthread_create(&t[i], 0L, R::run, &a[i]); }
	for (int i = 0; i < n; i++) pthread_join(t[i], 0L);
}

#endif
