// Matrix builders: identity, enumeration, random numbers of [0,1).
#include "common.h"
#include "util/create_identity_matrix.hpp"
#include "util/create_random_matrix.hpp"
#include "util/pattern_matrices.hpp"
template <class T> static void go(uint64_t n) {
  uint64_t w = vf_concretize(vf_u64("which", vf_param("WMIN", 0), vf_param("WMAX", 2)));
  if (w == 0) { std::vector<T> m = util::create_identity_matrix<T>(n); vf_assert(m.size() == n * n, "N*N elements"); if (m.size() != n * n) return; for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) vf_eqf((double)m[i * n + j], i == j ? 1.0 : 0.0, "identity matrix: 1 on the diagonal, 0 elsewhere", i * n + j); }
  else if (w == 1) { std::vector<T> m = util::create_enumerating_matrix<T>(n); vf_assert(m.size() == n * n, "N*N elements"); if (m.size() != n * n) return; for (uint64_t e = 0; e < n * n; e++) vf_eqf((double)m[e], (double)e, "element e has the value e", e); }
  else {
    vf_rng::all().clear(); const size_t before = 0; std::vector<double> m = util::create_random_matrix<double>(n); vf_assert(m.size() == n * n, "N*N elements"); if (m.size() != n * n) return;
    for (uint64_t e = 0; e < m.size(); e++) vf_assert(m[e] >= 0.0 && m[e] < 1.0, "every element is in [0,1)");
    const size_t draws = vf_rng::all().size() - before; vf_assert(draws >= n * n, "every element has its own draw");
    bool real = draws == n * n; double s = 0.0, s2 = 0.0, t = 0.0, t2 = 0.0;
    for (size_t d = before; d < vf_rng::all().size(); d++) { const vf_rng::draw &x = vf_rng::all()[d]; real = real && x.real && x.lo == 0.0 && x.hi == 1.0; s += x.val; s2 += x.val * x.val; }
    for (double x : m) { t += x; t2 += x * x; }
    if (real) { vf_eqf(t, s, "the elements are the draws (sum)", 0); vf_eqf(t2, s2, "the elements are the draws (sum of squares)", 1); }
  }
  vf_reach(w);
}
VF_MAIN { uint64_t n = vf_size(6); if (vf_concretize(vf_u64("type", 0, vf_param("TYPES", 1)))) go<int>(n); else go<double>(n); }
