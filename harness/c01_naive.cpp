// The reference multiplication.
#include "common.h"
#include "reference_kernels/naive.hpp"
VF_MAIN {
  uint64_t N = vf_size(6), tr = vf_concretize(vf_u64("transposed", 0, 1));
  vf_omp_threads(vf_u64("threads", vf_param("TMIN", 1), vf_param("TMAX", 3)));
  std::vector<double> A = vf_input(N * N, "A", 1), B = vf_input(N * N, "B", 2), A0(A), B0(B);
  std::vector<double> C = tr ? naive_matrix_multiply_transposed<double>(N, A, B) : naive_matrix_multiply<double>(N, A, B);
  vf_check_product(C, A0, B0, N, tr, "C[i][j] = sum_k A[i][k]*B[k][j]");
  vf_check_same(A, A0, "A unchanged"); vf_check_same(B, B0, "B unchanged");
  vf_reach(tr);
}
