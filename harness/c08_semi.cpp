#include "common.h"
#include "variants/semi.cpp"
VF_OBJECT {
  uint64_t N = vf_size(5);
  uint64_t bi = vf_block("block_input", N), br = vf_block("block_result", N);
  const uint64_t pol = vf_concretize(vf_u64("schedule", vf_param("PMIN", 0), vf_param("PMAX", 2)));
  auto env = [=]() { vf_hpx::S::policy = pol; }; env();
  auto o = vf_make_operands(N);
  auto m = std::make_shared<semi::semi>(N, o->A, o->B, br, bi);
  return [=]() {
    env();
    std::vector<double> C = m->matrix_multiply();
    o->check(C, true);
    vf_reach(N % br == 0); if (bi < N && N % bi) vf_reach(2);
  };
}
