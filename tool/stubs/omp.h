#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void);
int omp_get_max_threads(void);
int omp_get_num_threads(void);
void omp_set_num_threads(int);
int omp_in_parallel(void);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
