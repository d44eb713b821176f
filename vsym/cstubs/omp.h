/* declarations only: lets clang compile OpenMP sources to IR without an OpenMP runtime installed */
int omp_get_thread_num(void);
int omp_get_num_threads(void);
int omp_get_max_threads(void);
int omp_in_parallel(void);
void omp_set_num_threads(int);
