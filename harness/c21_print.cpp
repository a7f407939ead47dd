// Printing: one line per row, elements separated by ", ", in the right order, on the right stream.
#include "common.h"
#include <iostream>
#include "util/util.hpp"
#include "variants/static_improved.hpp"
static void check(int stream, uint64_t rows, uint64_t cols, const std::vector<double> &want) {
  auto &l = vf_io::log(); std::string sk; for (uint64_t i = 0; i < rows; i++) { for (uint64_t j = 0; j < cols; j++) { if (j) sk += ", "; sk += '#'; } sk += '\n'; }
  vf_assert(vf_io::skeleton() == sk, "one line per row, elements separated by a comma and a blank"); vf_assert(vf_io::skeleton(stream) == sk, "everything goes to the same stream");
  uint64_t k = 0; for (auto &e : l) if (e.kind != 0) { vf_assert(k < want.size() && e.kind == 2, "every printed number is a matrix element"); if (k < want.size()) vf_eqf(e.f, want[k], "elements are printed row by row", k); k++; }
  vf_assert(k == want.size(), "every element is printed");
}
// "locality: i = [size], [size], ..." for each locality
static void schedule() {
  uint64_t L = vf_concretize(vf_u64("localities", 1, 3)); std::vector<std::vector<matrix_multiply_work>> w(L); std::vector<uint64_t> want; std::string sk = "-----work-distribution:-----\n";
  for (uint64_t i = 0; i < L; i++) { uint64_t n = vf_concretize(vf_u64("packages", 0, vf_param("NMAX", 3))); want.push_back(i); sk += "locality: # = "; for (uint64_t k = 0; k < n; k++) { uint64_t size = vf_u64("package", 0, ~0ull); w[i].emplace_back(vf_u64("x", 0, ~0ull), vf_u64("y", 0, ~0ull), size); want.push_back(size); if (k) sk += ", "; sk += "[#]"; } sk += '\n'; }
  std::vector<double> A, B; multiply_components::static_improved s(0, A, B, false, 1, 1, 1, 1, 1.0, 1, 1);
  vf_io::record(true); vf_io::log().clear(); s.print_schedule(w); vf_io::record(false);
  vf_assert(vf_io::skeleton() == sk, "one line per locality with its work packages"); uint64_t k = 0;
  for (auto &e : vf_io::log()) if (e.kind != 0) { vf_assert(k < want.size() && e.kind == 1 && e.u == want[k], "each locality with the sizes of its work packages, in order"); k++; }
  vf_assert(k == want.size(), "every work package is listed"); vf_reach(8);
}
VF_MAIN {
  uint64_t w = vf_concretize(vf_u64("which", 0, vf_param("LARGE", 0) ? 7 : 8)); if (w == 8) { schedule(); return; } uint64_t N, M;
  if (vf_param("LARGE", 0)) { static const uint64_t T[][2] = {{1, 300}, {300, 1}, {9, 17}, {17, 9}, {33, 5}, {12, 12}, {2, 100}, {64, 65}}; uint64_t k = vf_concretize(vf_u64("shape", 0, 7)); N = w % 2 ? T[k][0] : T[k][0] % 67 + T[k][1] % 7; M = w % 2 ? T[k][1] : N; }
  else { N = vf_concretize(vf_u64("N", 0, vf_param("NMAX", 3))), M = w % 2 ? vf_concretize(vf_u64("M", 0, vf_param("NMAX", 3))) : N; }
  std::vector<double> m(N * M), want; vf_fill(m.data(), N * M, "x", DATA); const std::vector<double> m0(m); bool tr = (w / 2) % 2, hpx = w / 4;
  for (uint64_t i = 0; i < N; i++) for (uint64_t j = 0; j < M; j++) want.push_back(tr ? m[j * N + i] : m[i * M + j]);
  vf_io::record(true); vf_io::log().clear();
  switch (w) { case 0: print_matrix_host(N, m); break; case 1: print_matrix_host(N, M, m); break; case 2: print_matrix_transposed_host(N, m); break; case 3: print_matrix_transposed_host(N, M, m); break;
    case 4: print_matrix(N, m); break; case 5: print_matrix(N, M, m); break; case 6: print_matrix_transposed(N, m); break; default: print_matrix_transposed(N, M, m); }
  vf_io::record(false);
  check(hpx ? 2 : 1, N, M, want); vf_check_same(m, m0, "the matrix is unchanged"); vf_reach(w);
}
