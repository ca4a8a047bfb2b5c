/* declarations only: lets clang lower OpenMP sources without the gcc omp.h */
#ifndef SGV_OMP_H
#define SGV_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { void *p; } omp_lock_t;
int omp_get_thread_num(void); int omp_get_num_threads(void);
int omp_get_max_threads(void); int omp_get_num_procs(void);
int omp_in_parallel(void); int omp_get_level(void);
void omp_set_num_threads(int); void omp_set_nested(int); int omp_get_nested(void);
void omp_set_dynamic(int); int omp_get_dynamic(void);
void omp_set_max_active_levels(int);
double omp_get_wtime(void); double omp_get_wtick(void);
void omp_init_lock(omp_lock_t *); void omp_destroy_lock(omp_lock_t *);
void omp_set_lock(omp_lock_t *); void omp_unset_lock(omp_lock_t *); int omp_test_lock(omp_lock_t *);
#ifdef __cplusplus
}
#endif
#endif
