// Stand-in: no BLAS threading to check.
#ifndef VP_AOCOMMON_CHECKBLAS_H
#define VP_AOCOMMON_CHECKBLAS_H
inline void check_openblas_multithreading() {}
namespace aocommon { using ::check_openblas_multithreading; }
#endif
