// One of the experimental kernels: -DVF_FILE, -DVF_FN, -DVF_TR (B transposed).
#include "common.h"
#include <cstdlib>
#include <omp.h>
#ifdef VF_GNUC // the assembly is only compiled by what claims to be a recent gcc
#include <x86intrin.h>
#undef __GNUC__
#define __GNUC__ 13
#endif
#include VF_FILE
VF_MAIN {
  uint64_t unit = vf_param("UNIT", 1), every = vf_param("EVERY", 1);
  uint64_t n = unit * vf_concretize(vf_u64("n", vf_param("NMIN", 0), vf_param("NMAX", 6)));
  vf_omp_threads(vf_u64("threads", vf_param("TMIN", 1), vf_param("TMAX", 3)));
  std::vector<double> a = every == 1 ? vf_matrix(n * n, "A") : vf_sparse(n * n, "A", 1, every), b = every == 1 ? vf_matrix(n * n, "B") : vf_sparse(n * n, "B", 2, every);
  auto al = [&]() { void *p = nullptr; if (posix_memalign(&p, 64, n * n * 8 ? n * n * 8 : 64)) p = nullptr; return static_cast<double *>(p); };
  double *A = al(), *B = al(), *C = al();
  for (uint64_t i = 0; i < n * n; i++) { A[i] = a[i]; B[i] = b[i]; C[i] = 0.0; }
  VF_FN(A, B, C, (uint32_t)n);
  for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) vf_eqdot(C[i * n + j], &a[i * n], 1, VF_TR ? &b[j * n] : &b[j], VF_TR ? 1 : n, n, "C[i][j] = sum_k A[i][k]*B[k][j]", i * n + j);
  for (uint64_t i = 0; i < n * n; i++) { vf_eqf(A[i], a[i], "A unchanged", i); vf_eqf(B[i], b[i], "B unchanged", i); }
  free(A); free(B); free(C);
  vf_reach(0); if (n > unit) vf_reach(1);
}
