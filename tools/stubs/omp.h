// Stand-in for <omp.h> seen only by the AST extractor (clang has no OpenMP headers here).
// OpenMP pragmas are not expanded by the extractor: parallel loops are read as sequential loops.
#ifndef VERIF_OMP_STUB_H
#define VERIF_OMP_STUB_H
extern "C" int omp_get_num_threads(void);
extern "C" int omp_get_thread_num(void);
extern "C" int omp_get_max_threads(void);
extern "C" void omp_set_num_threads(int);
#endif
