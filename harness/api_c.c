/* The C interface, compiled as C */
#include "asagi.h"
#include "api.h"

#define G ((asagi_grid*) g)
#define L (level < 0 ? 0 : level)

static long create(int t) { return (long) asagi_grid_create((asagi_type) (t < 0 ? ASAGI_FLOAT : t)); }
static long create_array(int t) { return (long) asagi_grid_create_array((asagi_type) (t < 0 ? ASAGI_FLOAT : t)); }
static long create_struct(int n, int* bl, long* d, int* t)
{
	asagi_type ty[64];
	for (int i = 0; i < n; i++) ty[i] = (asagi_type) t[i];
	return (long) asagi_grid_create_struct(n, (unsigned int*) bl, (unsigned long*) d, ty);
}
static void set_threads(long g, int n) { asagi_grid_set_threads(G, n); }
static void set_param(long g, const char* n, const char* v, int level) { asagi_grid_set_param(G, n, v, L); }
static int open_(long g, const char* f, int level) { return asagi_grid_open(G, f, L); }
static int dimensions(long g) { return asagi_grid_dimensions(G); }
static double min_(long g, int n) { return asagi_grid_min(G, n); }
static double max_(long g, int n) { return asagi_grid_max(G, n); }
static double delta(long g, int n, int level) { return asagi_grid_delta(G, n, L); }
static int var_size(long g) { return asagi_grid_var_size(G); }
static unsigned char get_byte(long g, const double* p, int level) { return asagi_grid_get_byte(G, p, L); }
static int get_int(long g, const double* p, int level) { return asagi_grid_get_int(G, p, L); }
static long get_long(long g, const double* p, int level) { return asagi_grid_get_long(G, p, L); }
static float get_float(long g, const double* p, int level) { return asagi_grid_get_float(G, p, L); }
static double get_double(long g, const double* p, int level) { return asagi_grid_get_double(G, p, L); }
static void get_buf(long g, void* b, const double* p, int level) { asagi_grid_get_buf(G, b, p, L); }
static void close_(long g) { asagi_grid_close(G); }

const Api api_c = { "C", create, create_array, create_struct, set_threads, set_param, open_, dimensions, min_, max_, delta, var_size,
	get_byte, get_int, get_long, get_float, get_double, get_buf, close_,
	{ ASAGI_SUCCESS, ASAGI_MPI_ERROR, ASAGI_THREAD_ERROR, ASAGI_NUMA_ERROR, ASAGI_UNKNOWN_PARAM, ASAGI_INVALID_VALUE, ASAGI_NOT_INITIALIZED,
	  ASAGI_ALREADY_INITIALIZED, ASAGI_NOT_OPEN, ASAGI_VAR_NOT_FOUND, ASAGI_WRONG_SIZE, ASAGI_UNSUPPORTED_DIMENSIONS, ASAGI_INVALID_VAR_SIZE },
	{ ASAGI_BYTE, ASAGI_INT, ASAGI_LONG, ASAGI_FLOAT, ASAGI_DOUBLE } };
