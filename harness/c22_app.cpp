// The application: every algorithm it offers yields the product of the matrices it shows, its check tells right from
// wrong, and it refuses what it cannot do.
#include "common.h"
#define main app_main
#include "matrix_multiply_application/matrix_multiply.cpp"
#undef main
static std::vector<double> vf_err; static uint64_t vf_wrong_runs, vf_test_runs;
std::vector<double> proposal::proposal::matrix_multiply(double &duration) {
  vf_wrong_runs++; duration = 0.5; vf_assert(A.size() == N * N && B.size() == N * N, "an algorithm gets matrices of size N x N");
  std::vector<double> C(N * N); for (uint64_t i = 0; i < N * N; i++) C[i] = A[i] + vf_err[i]; return C; // B is the identity
}
std::vector<double> kernel_test::kernel_test::matrix_multiply() {
  vf_test_runs++; bool ok = A.size() == N * N && B.size() == N * N; vf_assert(ok, "an algorithm gets matrices of size N x N"); std::vector<double> C(N * N); if (!ok) return C;
  for (uint64_t i = 0; i < N; i++) for (uint64_t j = 0; j < N; j++) { double s = 0; for (uint64_t k = 0; k < N; k++) s += A[i * N + k] * B[k * N + j]; C[i * N + j] = s; } return C;
}
// the n numbers shown under a heading
static bool shown(const char *head, uint64_t n, std::vector<double> &v) {
  auto &l = vf_io::log(); std::string h(head); h += '\n'; if (!n) return vf_io::contains(h.c_str());
  for (uint64_t e = 0; e < l.size(); e++) if (l[e].kind == 0 && l[e].s.size() >= h.size() && l[e].s.compare(l[e].s.size() - h.size(), h.size(), h) == 0) {
    v.clear(); for (uint64_t k = e + 1; k < l.size() && v.size() < n && l[k].kind != 1; k++) if (l[k].kind == 2) v.push_back(l[k].f); return v.size() == n; }
  return false;
}
VF_MAIN {
  typedef boost::program_options::vf_cmd cmd; vf_quiet quiet;
  static const char *names[] = {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled", "proposal", "singles", "", "Single", "kernel"};
  uint64_t a = vf_concretize(vf_u64("algorithm", vf_param("AMIN", 0), vf_param("AMAX", 12)));
  uint64_t here = vf_param("REMOTE", 0), help = vf_param("HELP", 0), N = 4, tr = 1, rep = 1, verb = 0, chk = 0;
  bool given = vf_concretize(vf_u64("options_given", 0, 1)); vf_hpx::S::localities = vf_u64("localities", here ? 2 : 1, vf_param("LMAX", 3)); vf_hpx::S::here = (uint32_t)here; vf_hpx::S::policy = vf_param("POLICY", 2); vf_omp_threads(2);
  if (given) {
    cmd::u("n-value", N = vf_concretize(vf_u64("N", vf_param("NMIN", 0), vf_param("NMAX", 3)))); cmd::u("transposed", tr = vf_concretize(vf_u64("transposed", 0, 1))); cmd::u("repetitions", rep = vf_u64("repetitions", 1, 2));
    cmd::u("block-result", vf_u64("block_result", 1, 2)); cmd::u("block-input", vf_u64("block_input", 1, 2));
    cmd::u("min-work-size", vf_u64("min_work_size", 0, 4)); cmd::u("max-work-difference", vf_u64("max_work_difference", 0, 8)); cmd::d("max-relative-work-difference", vf_f64("max_relative_work_difference", 2, 4));
  }
  verb = vf_concretize(vf_u64("verbose", 0, 2)); chk = vf_concretize(vf_u64("check", 0, 1));
  if (verb || given) cmd::u("verbose", verb); if (chk || given) cmd::u("check", chk);
  if (a || given) cmd::s("algorithm", names[a]); if (help) cmd::u("help", 1);
  bool off = false, known = a <= 8; if (a == 8) { vf_err.resize(N * N); for (uint64_t i = 0; i < N * N; i++) { vf_err[i] = vf_f64("error", 0x1p-31, 36); if (!(std::abs(vf_err[i]) < 1E-10)) off = true; } }
  bool refused = known && !help && !here && ((a >= 2 && a <= 4 && !tr) || (a == 5 && tr));
  int rc = -1; bool thrown = false; char arg0[] = "matrix_multiply"; char *argv[] = {arg0, nullptr};
  vf_io::record(true);
  try { vf_loud loud; rc = app_main(1, argv); } catch (const util::matrix_multiplication_exception &) { thrown = true; }
  vf_io::record(false);
  vf_assert(vf_hpx::S::inited == 1, "the runtime is started once");
  bool passed = vf_io::contains("check passed"), failed = vf_io::contains("check failed"), usage = vf_io::contains("<options>");
  vf_assert(thrown == refused, "exactly the layouts an algorithm does not support are refused with an exception");
  vf_assert(usage == (help != 0 && !here), "the options are explained exactly if help is asked for");
  if (help || here) { vf_assert(!passed && !failed && vf_wrong_runs + vf_test_runs == 0 && vf_hpx::S::async_count == 0, "help, and localities other than the root, compute and report nothing"); vf_assert(rc == 0, "that is no error"); vf_reach(40); return; }
  if (refused) { vf_assert(!passed && !failed, "nothing is reported for a refused layout"); vf_reach(41); return; }
  if (!known) { vf_assert(rc == 1, "an unknown algorithm is an error"); vf_assert(vf_io::contains("not a valid algorithm") && !passed && !failed, "an unknown algorithm is reported as such"); vf_reach(42); return; }
  vf_assert(rc == 0 && !vf_io::contains("not a valid algorithm"), "a known algorithm runs");
  if (a == 6) vf_assert(vf_test_runs >= 1, "the requested algorithm is the one that runs"); if (a == 8) vf_assert(vf_wrong_runs >= 1, "the requested algorithm is the one that runs");
  vf_assert(passed == (chk && !off) && failed == (chk && off), "the check passes exactly if every element agrees with the reference up to 1E-10");
  if (verb >= 2) {
    std::vector<double> A, B, C, R, D; bool s = shown("matrix A:", N * N, A) && shown("matrix B:", N * N, B) && shown("matrix C:", N * N, C); vf_assert(s, "A, B and C are shown"); if (!s) return;
    if (chk) { bool t = shown("matrix Cref:", N * N, R) && shown("diff_matrix:", N * N, D); vf_assert(t, "the reference and the difference are shown"); if (!t) return; vf_check_product(R, A, B, N, false, "the reference is A*B"); for (uint64_t i = 0; i < N * N; i++) vf_eqf(D[i], a == 8 ? std::abs(vf_err[i]) : 0.0, "the difference to the reference", i); }
    if (a != 8) vf_check_product(C, A, B, N, false, "the result is A*B");
    for (uint64_t i = 0; i < N * N; i++) { vf_assert(A[i] >= 0.0 && A[i] < 1.0, "A consists of random numbers of [0,1)"); vf_eqf(B[i], i % (N + 1) ? 0.0 : 1.0, "B is the identity", i); }
    vf_reach(20 + chk);
  }
  vf_reach(a); vf_reach(given ? 31 : 30); if (passed) vf_reach(32); if (failed) vf_reach(33);
}
