#ifndef VERIF_STUB_OMP_H
#define VERIF_STUB_OMP_H
void omp_set_dynamic(int);
void omp_set_num_threads(int);
void omp_set_nested(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
#endif
