// transpose_matrix: result[i][j] = org[j][i]; applied twice it gives the original.
#include "common.h"
#include "util/transpose_matrix.hpp"
#include <boost/align/aligned_allocator.hpp>
template <class V> static void rect(uint64_t r, uint64_t c) { // org: c rows of r elements
  V x(r * c); vf_data(x, "x"); V x0(x);
  V y = util::transpose_matrix(r, c, x);
  vf_assert(y.size() == r * c, "the transposed matrix has as many elements"); if (y.size() != r * c) return;
  for (uint64_t i = 0; i < r; i++) for (uint64_t j = 0; j < c; j++) vf_eqf(y[i * c + j], x0[j * r + i], "result[i][j] = original[j][i]", i * c + j);
  for (uint64_t e = 0; e < r * c; e++) vf_eqf(x[e], x0[e], "the original is unchanged", e);
  V z = util::transpose_matrix(c, r, y); vf_assert(z.size() == r * c, "size kept"); if (z.size() == r * c) for (uint64_t e = 0; e < r * c; e++) vf_eqf(z[e], x0[e], "transposing twice gives the original", e);
  vf_reach(1); if (r != c && r && c) vf_reach(2);
}
VF_MAIN {
  if (vf_param("LARGE", 0)) { static const uint64_t T[][2] = {{257, 3}, {3, 257}, {300, 256}, {1, 70000}, {70000, 1}, {65, 64}, {128, 128}, {33, 100}}; uint64_t k = vf_concretize(vf_u64("shape", 0, 7)); return rect<std::vector<double>>(T[k][0], T[k][1]); }
  uint64_t w = vf_concretize(vf_u64("case", 0, 2)), n = vf_concretize(vf_u64("n", 0, w == 0 ? vf_param("SMAX", 6) : vf_param("NMAX", 6)));
  if (w == 0) {
    std::vector<double> x(n * n); vf_fill(x.data(), n * n, "x", DATA); std::vector<double> x0(x), y = util::transpose_matrix(n, x);
    vf_assert(y.size() == n * n, "N*N elements"); if (y.size() != n * n) return;
    for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) { vf_eqf(y[i * n + j], x0[j * n + i], "result[i][j] = original[j][i]", i * n + j); vf_eqf(x[i * n + j], x0[i * n + j], "the original is unchanged", i * n + j); }
    std::vector<double> z = util::transpose_matrix(n, y); for (uint64_t e = 0; e < n * n; e++) vf_eqf(z[e], x0[e], "transposing twice gives the original", e);
    vf_reach(0);
  } else { uint64_t m = vf_concretize(vf_u64("m", 0, vf_param("NMAX", 6))); if (w == 1) rect<std::vector<double>>(n, m); else rect<std::vector<double, boost::alignment::aligned_allocator<double, 32>>>(n, m); }
}
