// What the application reports: the times contain the runs that took place, and averages and performance belong to them.
// The clock is arbitrary: between any two readings an arbitrary time passes.
#include "common.h"
#include "variants/algorithms.hpp"
#include "variants/looped.hpp"
#include "variants/semi.hpp"
#include "reference_kernels/naive.hpp"
static std::vector<double> *vf_steps; static double vf_time; static std::vector<uint64_t> *vf_did; // time between readings; readings before each piece of work
double vf_now() { vf_quiet q; if (!vf_steps) { vf_steps = new std::vector<double>(); vf_time = 4; } double d = vf_param("FIXED", 0) ? 0.01 + (double)((vf_steps->size() * 37 + 11) % 197) * 0x1p-7 : 1.0 + vf_f64("passed", 0.99, 10); vf_steps->push_back(d); vf_time += d; return vf_time; }
void vf_work() { vf_quiet q; if (vf_did) vf_did->push_back(vf_steps ? vf_steps->size() : 0); }
#define VF_WRAP(n) namespace vf_##n { struct vf_##n : ::n::n { using ::n::n::n; std::vector<double> matrix_multiply() { vf_work(); std::vector<double> r = ::n::n::matrix_multiply(); vf_work(); return r; } }; }
VF_WRAP(algorithms) VF_WRAP(looped) VF_WRAP(semi)
#define algorithms vf_algorithms
#define looped vf_looped
#define semi vf_semi
static std::vector<uint64_t> vf_ref;
#define naive_matrix_multiply(...) (vf_ref.push_back(vf_steps->size()), naive_matrix_multiply(__VA_ARGS__))
#define naive_matrix_multiply_transposed(...) (vf_ref.push_back(vf_steps->size()), naive_matrix_multiply_transposed(__VA_ARGS__))
#define main app_main
#include "matrix_multiply_application/matrix_multiply.cpp"
#undef main
std::vector<double> proposal::proposal::matrix_multiply(double &duration) { duration = 0.5; for (uint64_t r = 0; r < repetitions; r++) vf_work(); return A; }
std::vector<double> kernel_test::kernel_test::matrix_multiply() { for (uint64_t r = 0; r < repetitions; r++) vf_work(); return A; }
// the number shown after a text that ends like this, as the event it is
static const vf_io::Ev *shown(const char *head, bool fl) {
  auto &l = vf_io::log(); std::string h(head);
  for (uint64_t e = 0; e + 1 < l.size(); e++) if (l[e].kind == 0 && l[e].s.size() >= h.size() && l[e].s.compare(l[e].s.size() - h.size(), h.size(), h) == 0 && l[e + 1].kind == (fl ? 2 : 1)) return &l[e + 1];
  return nullptr;
}
static const double TOL = 1e-9, TICK = 2e-5; // relative; a clock may be read in microseconds
// x = n/d for d > 0 (first as the code is likely to calculate it: the comparison is then decided without a solver)
static void quotient(double x, double n, double d, const char *msg) { if (x == n / d) return; vf_assert(x * d <= n * (1 + TOL), msg); vf_assert(x * d >= n * (1 - TOL), msg); }
// `t` contains every interval in which work was done and is not longer than what passed between the first and the last reading
static void covers(double t, const std::vector<uint64_t> &did, uint64_t from, const char *msg) {
  double most = 0, least = 0; for (uint64_t k = from + 1; k < vf_steps->size(); k++) most += (*vf_steps)[k];
  uint64_t last = from; bool in = true; for (uint64_t w : did) { if (w <= from || w >= vf_steps->size()) { in = false; continue; } if (w != last) least += (*vf_steps)[w]; last = w; }
  vf_assert(in, "all runs take place while the time is taken"); vf_assert(t >= least - TICK, msg); vf_assert(t <= most + TICK, "a time is at most what passed between the readings of the clock");
}
static uint64_t vf_run(const char *name, bool given, uint64_t N, uint64_t tr, uint64_t rep, uint64_t verb, uint64_t chk, uint64_t br, uint64_t bi, uint64_t runs_one) {
  typedef boost::program_options::vf_cmd cmd; cmd::args().clear(); desc_commandline = boost::program_options::options_description("Usage: matrix_multiply [options]");
  vf_hpx::S::finalized = 0; vf_hpx::S::inited = 0; hpx::components::registry().clear(); vf_ref.clear();
  cmd::s("algorithm", name); cmd::u("repetitions", rep); cmd::u("n-value", N); cmd::u("transposed", tr); cmd::u("verbose", verb); cmd::u("check", chk); cmd::u("block-result", br); cmd::u("block-input", bi);
  if (given) { cmd::u("min-work-size", 1); cmd::u("max-work-difference", 1); cmd::d("max-relative-work-difference", 0.5); }
  std::vector<uint64_t> did; char arg0[] = "matrix_multiply"; char *argv[] = {arg0, nullptr}; uint64_t from = vf_steps ? vf_steps->size() : 0;
  vf_io::record(true); vf_io::log().clear(); vf_did = &did; int rc; { vf_loud loud; rc = app_main(1, argv); } vf_did = nullptr; vf_io::record(false);
  vf_assert(rc == 0, "a known algorithm runs");
  const vf_io::Ev *t = shown("total time: ", true), *a = shown("average time per run: ", true), *r = shown("(repetitions = ", false), *p = shown("] performance: ", true);
  vf_assert(t && a && r && p, "total time, average time, repetitions and performance are shown"); if (!t || !a || !r || !p) return 0;
  uint64_t shown_reps = vf_concretize(r->u); double flop = 2.0 * (double)N * (double)N * (double)N;
  vf_assert(did.size() > 0, "the algorithm runs"); if (runs_one) vf_assert(did.size() == shown_reps * runs_one, "the repetitions shown are those that took place");
  if (!runs_one) return did.size() / shown_reps;
  covers(t->f, did, from, "the total time contains all runs");
  quotient(a->f, t->f, (double)shown_reps, "the average is the total time divided by the number of runs");
  quotient(p->f, (double)shown_reps * (flop / 1e9), t->f, "the performance is 2*N^3 operations per run and average time");
  if (const vf_io::Ev *i = shown("duration inner: ", true)) {
    covers(i->f, did, from, "the inner time contains all runs"); vf_assert(i->f <= t->f + TICK, "the inner time is part of the total time");
    const vf_io::Ev *x = shown("[X_size = ", false), *y = shown("Y_size = ", false), *k = shown("K_size = ", false), *q = shown("] inner performance: ", true);
    vf_assert(x && y && k && q, "the inner performance is shown with its sizes");
    if (x && y && k && q) { vf_assert(x->u >= N && y->u >= N && k->u >= N, "the sizes calculated with contain the matrices"); quotient(q->f, (double)shown_reps * (2.0 * (double)x->u * (double)y->u * (double)k->u / 1e9), i->f, "the inner performance is 2*X*Y*K operations per run and average inner time"); vf_reach(11); }
  }
  vf_assert(vf_ref.size() == chk, "the reference is calculated exactly if a check is asked for");
  if (chk) {
    const vf_io::Ev *u = nullptr; auto &l = vf_io::log(); for (uint64_t e = 0; e + 1 < l.size() && !u; e++) if (l[e].kind == 0 && l[e].s.find("naive matMult took") != std::string::npos && l[e + 1].kind == 2) u = &l[e + 1];
    const vf_io::Ev *q = shown("] performance reference: ", true); vf_assert(u && q, "time and performance of the reference are shown"); if (!u || !q) return 0;
    covers(u->f, vf_ref, from, "the time of the reference contains its calculation"); quotient(q->f, flop / 1e9, u->f, "the performance of the reference is 2*N^3 operations per time it took"); vf_reach(10);
  }
  vf_reach(20 + (shown_reps > 1));
  return did.size() / shown_reps;
}
// the kernels that take the time themselves: whatever the variable for it held before
static void vf_inner() {
  uint64_t tiled = vf_concretize(vf_u64("kernel", 0, 1)), N = vf_concretize(vf_u64("N", 1, vf_param("NMAX", 3))), rep = vf_concretize(vf_u64("repetitions", 1, vf_param("RMAX", 3)));
  double before = vf_f64("duration", 64, 10), d[2]; vf_omp_threads(2); std::vector<double> a = vf_matrix(N * N, "A"), b = vf_matrix(N * N, "B"); std::vector<uint64_t> did, one;
  for (uint64_t c = 0; c < 2; c++) { // the second time with an object that has been used
    static std::unique_ptr<combined::combined> x; static std::unique_ptr<kernel_tiled::kernel_tiled> y; if (!c) { x.reset(); y.reset(); if (tiled) y.reset(new kernel_tiled::kernel_tiled(N, a, b, false, rep, 0)); else x.reset(new combined::combined(N, a, b, rep, 0)); }
    uint64_t from = vf_steps ? vf_steps->size() : 0; did.clear(); vf_did = &did; d[c] = before; { vf_loud loud; if (tiled) y->matrix_multiply(d[c]); else x->matrix_multiply(d[c]); } vf_did = nullptr;
    vf_assert(did.size() > 0 && did.size() % rep == 0, "all repetitions take place"); if (!c) one = did; else vf_assert(did.size() == one.size(), "every call does the same work"); covers(d[c], did, from, "the inner time contains all runs");
  }
  vf_reach(tiled);
}
VF_MAIN {
  vf_quiet quiet; if (vf_param("INNER", 0)) { vf_inner(); return; } static const char *names[] = {"single", "pseudodynamic", "algorithms", "looped", "semi", "combined", "kernel_test", "kernel_tiled", "proposal"};
  uint64_t a = vf_concretize(vf_u64("algorithm", vf_param("AMIN", 0), vf_param("AMAX", 8)));
  vf_hpx::S::localities = vf_concretize(vf_u64("localities", 1, a == 1 ? vf_param("LMAX", 2) : 1)); vf_hpx::S::policy = vf_param("POLICY", 2); vf_omp_threads(2);
  uint64_t N = vf_concretize(vf_u64("N", vf_param("NMIN", 1), vf_param("NMAX", 3))), tr = a == 5 ? 0 : a >= 2 && a <= 4 ? 1 : vf_concretize(vf_u64("transposed", 0, 1));
  uint64_t rep = vf_concretize(vf_u64("repetitions", 1, vf_param("RMAX", 3))), verb = vf_concretize(vf_u64("verbose", 0, vf_param("VMAX", 1))), chk = vf_concretize(vf_u64("check", 0, 1));
  uint64_t one = vf_run(names[a], a == 1, N, tr, 1, verb, chk, 2, 2, 0); if (!one) return;
  vf_run(names[a], a == 1, N, tr, rep, verb, chk, 2, 2, one);
  vf_reach(a);
}
