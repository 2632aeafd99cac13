// The communication thread and the lock between processes; a program of its own, because it needs internal classes
#define VERIF_INTERNAL
#include "h_mpi.cpp"
