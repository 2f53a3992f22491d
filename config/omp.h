/* minimal OpenMP runtime prototypes so that clang can type-check the parallel code offline */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
extern "C" {
typedef struct omp_lock_t { void *p; } omp_lock_t;
typedef struct omp_nest_lock_t { void *p; } omp_nest_lock_t;
void omp_set_num_threads(int);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_get_thread_num(void);
int omp_get_num_procs(void);
int omp_in_parallel(void);
void omp_set_dynamic(int);
int omp_get_dynamic(void);
void omp_set_nested(int);
int omp_get_nested(void);
double omp_get_wtime(void);
double omp_get_wtick(void);
void omp_init_lock(omp_lock_t *);
void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *);
void omp_unset_lock(omp_lock_t *);
int omp_test_lock(omp_lock_t *);
int omp_get_level(void);
int omp_get_thread_limit(void);
void omp_set_max_active_levels(int);
int omp_get_max_active_levels(void);
}
#endif
