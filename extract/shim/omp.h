// Declarations only: lets clang parse sources that include <omp.h> (no OpenMP runtime is needed to analyse).
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void* p; } omp_lock_t;
typedef struct { void* p; } omp_nest_lock_t;
typedef enum { omp_sched_static = 1, omp_sched_dynamic = 2, omp_sched_guided = 3, omp_sched_auto = 4 } omp_sched_t;
int omp_get_num_threads(void);
int omp_get_thread_num(void);
int omp_get_max_threads(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
int omp_get_dynamic(void);
int omp_get_nested(void);
int omp_get_level(void);
void omp_set_num_threads(int);
void omp_set_dynamic(int);
void omp_set_nested(int);
void omp_set_schedule(omp_sched_t, int);
void omp_init_lock(omp_lock_t*);
void omp_destroy_lock(omp_lock_t*);
void omp_set_lock(omp_lock_t*);
void omp_unset_lock(omp_lock_t*);
double omp_get_wtime(void);
#ifdef __cplusplus
}
#endif
