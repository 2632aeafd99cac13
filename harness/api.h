/* One table of functions per language interface; level/type < 0: leave the optional argument out */
#ifndef VERIF_API_H
#define VERIF_API_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct {
	const char* name;
	long (*create)(int type);
	long (*create_array)(int type);
	long (*create_struct)(int count, int* blockLength, long* displacements, int* types);
	void (*set_threads)(long g, int threads);
	void (*set_param)(long g, const char* name, const char* value, int level);
	int (*open)(long g, const char* file, int level);
	int (*dimensions)(long g);
	double (*min)(long g, int n);
	double (*max)(long g, int n);
	double (*delta)(long g, int n, int level);
	int (*var_size)(long g);
	unsigned char (*get_byte)(long g, const double* pos, int level);
	int (*get_int)(long g, const double* pos, int level);
	long (*get_long)(long g, const double* pos, int level);
	float (*get_float)(long g, const double* pos, int level);
	double (*get_double)(long g, const double* pos, int level);
	void (*get_buf)(long g, void* buf, const double* pos, int level);
	void (*close)(long g);
	int errors[13];	/* in the order of the documentation of the C++ interface */
	int types[5];	/* byte, int, long, float, double */
} Api;

extern const Api api_c;
#ifdef __cplusplus
}
#endif
#endif
