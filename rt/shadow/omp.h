#pragma once
static inline int omp_get_max_threads(){ return 1; } static inline int omp_get_thread_num(){ return 0; } static inline void omp_set_num_threads(int){} static inline int omp_get_num_threads(){ return 1; } static inline void omp_set_dynamic(int){} static inline double omp_get_wtime(){ return 0; }
typedef int omp_lock_t; static inline void omp_init_lock(omp_lock_t*){} static inline void omp_set_lock(omp_lock_t*){} static inline void omp_unset_lock(omp_lock_t*){} static inline void omp_destroy_lock(omp_lock_t*){}
