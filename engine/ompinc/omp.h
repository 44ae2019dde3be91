/* minimal omp.h for the instrumented build; the functions are in engine/omp.cpp */
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_thread_num(void); int omp_get_num_threads(void); int omp_get_max_threads(void); void omp_set_num_threads(int); void omp_set_dynamic(int); int omp_get_num_procs(void); double omp_get_wtime(void); int omp_in_parallel(void);
#ifdef __cplusplus
}
#endif
