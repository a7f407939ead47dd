#include "common.h"
#include "reference_kernels/kernel_tiled.cpp"
VF_OBJECT {
  uint64_t N = vf_param("N", 2);
  if (vf_param("NMAX", 0)) N = vf_concretize(vf_u64("N", vf_param("NMIN", 0), vf_param("NMAX", 0)));
  uint64_t rep = vf_u64("repetitions", 1, vf_param("REPMAX", 2)), verbose = vf_u64("verbose", 0, vf_param("VMAX", 1));
  const uint64_t threads = vf_u64("threads", vf_param("TMIN", 1), vf_param("TMAX", 2));
  auto env = [=]() { vf_omp_threads(threads); }; env();
  auto o = vf_make_operands(N);
  auto m = std::make_shared<kernel_tiled::kernel_tiled>(N, o->A, o->B, false, rep, verbose);
  return [=]() {
    env();
    double duration = 0;
    std::vector<double> C = m->matrix_multiply(duration);
    o->check(C, false);
    vf_reach(0); if (rep > 1) vf_reach(1);
  };
}
