#include "common.h"
#include "vf_hpx.h"
#include "variants/pseudodynamic.hpp"
VF_OBJECT {
  uint64_t N = vf_size(4);
  uint64_t tr = vf_u64("transposed", 0, 1);
  uint64_t br = vf_u64("block_result", vf_param("BRMIN", 0), vf_param("BMAX", 5)), bi = vf_u64("block_input", 0, vf_param("BMAX", 5));
  uint64_t mw = vf_u64("min_work_size", 0, vf_param("WMAX", 5)), md = vf_u64("max_work_difference", 0, vf_param("DMAX", 20));
  double rel = vf_f64("max_relative_work_difference", 4, 6);
  uint64_t rep = vf_u64("repetitions", 1, vf_param("REPMAX", 2)), verbose = vf_u64("verbose", 0, vf_param("VMAX", 1));
  uint64_t L = vf_concretize(vf_u64("localities", 1, vf_param("LMAX", 3)));
  const uint64_t pol = vf_concretize(vf_u64("schedule", vf_param("PMIN", 0), vf_param("PMAX", 2)));
  const uint32_t root = (uint32_t)vf_concretize(vf_u64("root", 0, L - 1));
  auto env = [=]() { vf_hpx::S::policy = pol; vf_hpx::S::localities = L; vf_hpx::S::root = vf_hpx::S::here = root; vf_hpx::S::used = 0; }; env();
  auto o = vf_make_operands(N);
  auto m = std::make_shared<pseudodynamic::pseudodynamic>(N, o->A, o->B, tr != 0, br, bi, mw, md, rel, rep, verbose);
  return [=]() {
    env();
    std::vector<double> C = m->matrix_multiply();
    bool t = tr != 0;
    o->check(C, t);
    vf_assert(L == 1 || !(vf_hpx::S::used >> vf_hpx::S::root & 1), "with several localities the root does not compute");
    vf_reach(t); vf_reach(10 + L);
  };
}
