// The benchmark program: the kernel named on the command line runs once, on operands of the layout it expects, and the
// norm of what it computed is reported. The kernels are replaced by recorders (they have their own check).
#include "common.h"
#define main benchmark_main
#include "otherExperiments/benchmark.cpp"
#undef main
static uint64_t calls, which; static const char *NAMES[] = {"naive", "transposed", "counter", "exchanged", "blocked2", "blocked4", "asm", "gpu", "gpuasm", "register", "intrinLoop"};
static void kernel(uint64_t id, bool, double *A, double *B, double *C, uint64_t n) {
  calls++; which = id; bool al = ((uintptr_t)A | (uintptr_t)B | (uintptr_t)C) % 64 == 0; vf_assert(al, "the operands are aligned to 64 bytes");
  vf_assert(n > 0 && n % 256 == 0, "the size is a multiple of the block sizes of all kernels");
  bool in = vf_readable(A, n * n * 8) && vf_readable(B, n * n * 8) && vf_readable(C, n * n * 8); vf_assert(in, "the operands are arrays of n*n elements"); if (!in || !n) return;
  vf_assert((A + n * n <= C || C + n * n <= A) && (B + n * n <= C || C + n * n <= B), "the result does not overlap the operands");
  vf_assert(vf_all_equal(C, n * n, 0.0), "the result is zeroed"); vf_assert(vf_all_equal(A, n * n, 2.0), "A is the matrix of twos");
  bool id1 = true; for (uint64_t i = 0; i < n; i++) id1 = id1 & vf_all_equal(B + i * n, i, 0.0) & (B[i * n + i] == 1.0) & vf_all_equal(B + i * n + i + 1, n - i - 1, 0.0); vf_assert(id1, "B is the identity");
  C[0] = 1.0; C[n - 1] = -2.0; C[n * (n - 1)] = 4.0; C[n * n - 1] = -10.0;
}
#define K(id, fn, tr) void fn(double *A, double *B, double *C, const uint32_t n) { kernel(id, tr, A, B, C, n); }
K(0, multNaive, false) K(1, multTransposed, true) K(2, multCounter, true) K(3, multExchanged, false) K(4, multBlocked2, true) K(5, multBlocked4, true) K(6, multASM, true) K(7, multGPU, true) K(8, multGPUASM, true) K(9, multRegister, false) K(10, multIntrinLoop, false)
VF_MAIN {
  calls = 0;
  // no argument, or any text of at most LEN characters
  char prog[] = "benchmark", text[32]; const uint64_t len = vf_param("LEN", 11), given = vf_concretize(vf_u64("given", 0, 2));
  for (uint64_t i = 0; i < len; i++) text[i] = (char)vf_u64((std::string("c") + char('a' + i)).c_str(), 0, 127); text[len] = 0; char extra[] = "naive";
  char *argv[] = {prog, given ? text : nullptr, given > 1 ? extra : nullptr, nullptr};
  vf_io::record(true); int rc = benchmark_main((int)(1 + given), argv); vf_io::record(false);
  int want = -1; if (given) for (int k = 0; k < 11 && want < 0; k++) if (strcmp(text, NAMES[k]) == 0) want = k;
  vf_assert(rc == 0, "the program ends normally"); const std::string out = vf_io::skeleton();
  const bool gflops = out.find("Gflops") != std::string::npos, chk = out.find("check: #") != std::string::npos;
  if (want < 0) { vf_assert(calls == 0, "without the name of a kernel none runs"); vf_assert(!gflops && !chk, "nothing is reported when nothing ran"); vf_assert(out.find(given ? "unknown implementation" : "no implementation") != std::string::npos, "an unknown or missing name is reported"); vf_reach(given ? 21 : 20); return; }
  vf_assert(calls == 1 && (int)which == want, "the kernel named on the command line runs, once"); vf_assert(gflops && chk, "performance and check value are reported");
  auto &l = vf_io::log(); bool ok = false; for (size_t e = 0; e + 1 < l.size(); e++) if (l[e].kind == 0 && l[e].s.size() >= 7 && l[e].s.compare(l[e].s.size() - 7, 7, "check: ") == 0) ok = l[e + 1].kind == 2 && std::abs(l[e + 1].f - 11.0) < 1e-9;
  vf_assert(ok, "the check value is the norm of the result"); vf_reach(want);
}
