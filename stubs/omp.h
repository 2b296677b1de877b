// declarations only: clang has no omp.h here
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
int omp_get_max_threads(void);
int omp_get_num_threads(void);
int omp_get_thread_num(void);
void omp_set_num_threads(int);
int omp_in_parallel(void);
typedef struct { void* p; } omp_lock_t;
void omp_init_lock(omp_lock_t*); void omp_set_lock(omp_lock_t*); void omp_unset_lock(omp_lock_t*); void omp_destroy_lock(omp_lock_t*);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
