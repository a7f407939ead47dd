// One block of the product: rows x..x+b-1, columns y..y+b-1.
#include "common.h"
#include "vf_hpx.h"
#include "reference_kernels/kernel.hpp"
#include "variants/components/multiplier.hpp"
static void check_block(const std::vector<double> &C, const std::vector<double> &A, const std::vector<double> &B, uint64_t N, uint64_t x, uint64_t y, uint64_t b, bool tr) {
  vf_assert(C.size() == b * b, "the block has b*b elements"); if (C.size() != b * b) return;
  for (uint64_t i = 0; i < b; i++) for (uint64_t j = 0; j < b; j++) vf_eqdot(C[i * b + j], A.data() + (x + i) * N, 1, tr ? B.data() + (y + j) * N : B.data() + y + j, tr ? 1 : N, N, "block element = dot product of its row and column", i * b + j);
}
// larger matrices: blocks at the corners and in the middle
static void large() {
  uint64_t what = vf_concretize(vf_u64("what", 0, 3)), N = vf_size(0), b = vf_concretize(vf_u64("b", vf_param("BMIN", 1), std::min(N, vf_param("BMAX", 16)))); bool tr = what == 1 || what == 2; uint64_t bi = 0;
  if (what != 3 && b % 4 != 0) { vf_assume(what != 2 && (b % 5 == 0 || N <= vf_param("ALLB", 0))); } if (what == 3) vf_assume(b % 4 == 0);
  auto place = [&](const char *n) { uint64_t k = vf_concretize(vf_u64(n, 0, N == b ? 0 : vf_param("PLACES", 2))); return k == 0 ? 0 : k == 1 ? N - b : (N - b) / 2; }; uint64_t x = place("x"), y = place("y"); 
  if (what >= 2) { bi = vf_concretize(vf_u64("block_input", 1, N)); vf_assume(N % bi == 0); }
  std::vector<double> A = vf_input(N * N, "A", 1), B = vf_input(N * N, "B", 2), A0(A), B0(B), C(b * b, 0.0);
  if (what == 0) kernel::kernel<double>(A, B, C, N, x, y, b); else if (what == 1) kernel::kernel_transposed<double>(A, B, C, N, x, y, b); else if (what == 2) kernel::kernel_transposed_blocked<double>(A, B, C, N, x, y, b, bi);
  else { tr = true; multiply_components::multiplier m(N, A, B, true, bi, 0); C = m.calculate_submatrix(x, y, b); }
  check_block(C, A0, B0, N, x, y, b, tr); vf_check_same(A, A0, "A unchanged"); vf_check_same(B, B0, "B unchanged"); vf_reach(what); if (b > 4 && bi > 4 && bi < N) vf_reach(4);
}
VF_MAIN {
  if (vf_param("IMAX", 0)) return large();
  uint64_t what = vf_concretize(vf_u64("what", 0, 3)), nmax = vf_param("NMAX", 5), bmax = nmax;
  uint64_t N = vf_u64("N", 0, nmax), b = vf_u64("b", 0, bmax), x = vf_u64("x", 0, nmax), y = vf_u64("y", 0, nmax), bi = vf_u64("block_input", 0, nmax + 1);
  vf_assume(b <= N && x + b <= N && y + b <= N);
  if (what == 2) { vf_assume(b % 4 == 0 && bi >= 1); }
  N = vf_concretize(N); b = vf_concretize(b); x = vf_concretize(x); y = vf_concretize(y); 
  if (what == 2) { bi = vf_concretize(bi); vf_assume(N % bi == 0); }
  std::vector<double> A = vf_matrix(N * N, "A"), B = vf_matrix(N * N, "B"), A0(A), B0(B), C(b * b, 0.0);
  if (what == 0) { kernel::kernel<double>(A, B, C, N, x, y, b); check_block(C, A0, B0, N, x, y, b, false); }
  else if (what == 1) { kernel::kernel_transposed<double>(A, B, C, N, x, y, b); check_block(C, A0, B0, N, x, y, b, true); }
  else if (what == 2) { kernel::kernel_transposed_blocked<double>(A, B, C, N, x, y, b, bi); check_block(C, A0, B0, N, x, y, b, true); if (b > 0 && bi < N) vf_reach(4); }
  else { bool tr = vf_u64("transposed", 0, 1) != 0; multiply_components::multiplier m(N, A, B, tr, bi, vf_u64("verbose", 0, 1)); std::vector<double> D = m.calculate_submatrix(x, y, b); check_block(D, A0, B0, N, x, y, b, tr); }
  vf_check_same(A, A0, "A unchanged"); vf_check_same(B, B0, "B unchanged");
  vf_reach(what);
}
