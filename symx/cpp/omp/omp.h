// Stand-in for the OpenMP header: the run-time functions are in omprt.cpp.
#pragma once
extern "C" {
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
void omp_set_num_threads(int);
int omp_in_parallel(void);
void omp_set_dynamic(int);
double omp_get_wtime(void);
typedef struct { void *p; } omp_lock_t;
}
