#include "common.h"
#include "reference_kernels/kernel_test.cpp"
VF_OBJECT {
  uint64_t N = vf_param("N", 2);
  if (vf_param("NMAX", 0)) N = vf_concretize(vf_u64("N", vf_param("NMIN", 0), vf_param("NMAX", 0)));
  if (vf_param("ROWS", 0) == 4) vf_assume(N % 4 == 0); else if (vf_param("ROWS", 0) == 1) vf_assume(N % 4 != 0);
  if (vf_param("FIT", 0)) { // the last block of each direction fits into the padded matrices
    const uint64_t P = N + vf_param("PADDING", 64); auto up = [](uint64_t n, uint64_t b) { return (n + b - 1) / b * b; };
    vf_assume(up(N, vf_param("BX", 256)) + 5 <= P && up(N, vf_param("BY", 256)) <= P && up(N, vf_param("BK", 512)) + 1 <= P && P % 4 == 0);
  }
  uint64_t rep = vf_u64("repetitions", 1, vf_param("REPMAX", 2)), verbose = vf_u64("verbose", 0, vf_param("VMAX", 1));
  const uint64_t threads = vf_u64("threads", vf_param("TMIN", 1), vf_param("TMAX", 2));
  auto env = [=]() { vf_omp_threads(threads); }; env();
  auto o = vf_make_operands(N);
  auto m = std::make_shared<kernel_test::kernel_test>(N, o->A, o->B, false, rep, verbose);
  return [=]() {
    env();
    std::vector<double> C = m->matrix_multiply();
    o->check(C, false);
    vf_reach(0); if (rep > 1) vf_reach(1);
  };
}
