// The work distribution: an exact partition of the result, limits respected, and it always ends.
#include "common.h"
#include "vf_hpx.h"
#include "variants/static_improved.hpp"
VF_MAIN {
  uint64_t N = vf_size(16), L = vf_concretize(vf_u64("localities", 1, vf_param("LMAX", 4)));
  uint64_t mw = vf_u64("min_work_size", 0, vf_param("WMAX", 20)), md = vf_u64("max_work_difference", 0, vf_param("DMAX", 300)), verbose = vf_u64("verbose", 0, 1);
  double rel = vf_f64("max_relative_work_difference", 4, 6);
  std::vector<double> A, B;
  multiply_components::static_improved s(N, A, B, true, 1, 1, mw, md, rel, 1, verbose);
  std::vector<std::vector<matrix_multiply_work>> w = s.create_schedule(L);
  vf_assert(w.size() == L, "one list of packages per locality");
  std::vector<int> cnt(N * N, 0); std::vector<uint64_t> load(L, 0);
  for (uint64_t l = 0; l < w.size(); l++) for (auto &p : w[l]) {
    bool in = p.N <= N && p.x <= N - p.N && p.y <= N - p.N; vf_assert(in, "a work package lies inside the result matrix"); if (!in) return;
    if (p.N != N) vf_assert(2 * p.N > mw, "packages not larger than the minimum work size are not divided");
    for (uint64_t i = 0; i < p.N; i++) for (uint64_t j = 0; j < p.N; j++) cnt[(p.x + i) * N + p.y + j]++;
    if (l < L) load[l] += p.N * p.N;
  }
  for (auto c : cnt) vf_assert(c == 1, "every element of the result belongs to exactly one work package");
  // the distribution ends only when it is balanced or when nothing on a most loaded locality can be divided
  uint64_t mx = load[0], mn = load[0]; for (auto x : load) { mx = std::max(mx, x); mn = std::min(mn, x); }
  bool ok = mx - mn < md; if (!ok && mn > 0) ok = (double)(mx - mn) / (double)mn < rel;
  if (!ok) { vf_reach(101);
    for (uint64_t l = 0; l < L; l++) if (load[l] == mx) for (auto &p : w[l]) {
      uint64_t h = p.N * p.N / 2; uint64_t after = mx - h > mn + h ? (mx - h) - (mn + h) : (mn + h) - (mx - h);
      vf_assert(!(p.N > mw && p.N % 2 == 0 && after <= mx - mn), "an unbalanced distribution has no divisible package left on the most loaded localities");
    }
  } else vf_reach(102);
  if (w.size() > 1 && w[1].size() > 1) vf_reach(103); vf_reach(0);
}
