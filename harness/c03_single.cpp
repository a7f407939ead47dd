#include "common.h"
#include "vf_hpx.h"
#include "variants/single.hpp"
VF_OBJECT {
  uint64_t N = vf_size(6);
  uint64_t tr = vf_u64("transposed", 0, 1);
  uint64_t br = vf_u64("block_result", vf_param("BRMIN", 0), vf_param("BMAX", 8)), bi = vf_u64("block_input", 0, vf_param("BMAX", 8));
  uint64_t rep = vf_u64("repetitions", 1, vf_param("REPMAX", 2)), verbose = vf_u64("verbose", 0, vf_param("VMAX", 1));
  const uint64_t pol = vf_concretize(vf_u64("schedule", vf_param("PMIN", 0), vf_param("PMAX", 2)));
  const uint32_t here = (uint32_t)vf_concretize(vf_u64("here", 0, vf_param("LOC", 2) - 1));
  auto env = [=]() { vf_hpx::S::policy = pol; vf_hpx::S::localities = vf_param("LOC", 2); vf_hpx::S::root = 0; vf_hpx::S::here = here; }; env();
  auto o = vf_make_operands(N);
  auto m = std::make_shared<single::single>(N, o->A, o->B, tr != 0, br, bi, rep, verbose);
  return [=]() {
    env();
    std::vector<double> C = m->matrix_multiply();
    bool t = tr != 0;
    o->check(C, t);
    vf_reach(t); if (vf_hpx::S::async_count > 4) vf_reach(102);
  };
}
