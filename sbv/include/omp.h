/* the few OpenMP entry points the sources use; only parsed, never linked */
#ifndef _SBV_OMP_H
#define _SBV_OMP_H
int omp_get_thread_num(void);
int omp_get_max_threads(void);
int omp_get_num_threads(void);
void omp_set_num_threads(int);
int omp_get_num_procs(void);
double omp_get_wtime(void);
#endif
