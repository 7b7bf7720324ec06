/* Declarations only: clang 18 has no omp.h here and gcc's does not parse under clang.
   Used only to obtain LLVM IR of /repo's sources for the verifier. */
#ifndef VERIF_OMP_H
#define VERIF_OMP_H
#ifdef __cplusplus
extern "C" {
#endif
void omp_set_num_threads(int); int omp_get_num_threads(void); int omp_get_max_threads(void);
int omp_get_thread_num(void); int omp_get_num_procs(void); int omp_in_parallel(void);
void omp_set_dynamic(int); int omp_get_dynamic(void); void omp_set_nested(int); int omp_get_nested(void);
double omp_get_wtime(void); double omp_get_wtick(void);
void omp_set_max_active_levels(int);
#ifdef __cplusplus
}
#endif
#endif
