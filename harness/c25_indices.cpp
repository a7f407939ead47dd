// Blocked iteration: the body is called exactly once for every index of the range (of its lattice, with final steps),
// whatever the blockings, the parallel dimensions and the order in which parallel blocks run.
// -DVF_IDX: header; -DVF_NS: namespace; -DVF_LOOPED: the sequential variant without parallel dimensions.
#include "common.h"
#include <hpx/include/iostreams.hpp>
#include VF_IDX
static std::string nm(const char *p, uint64_t a, uint64_t b = 10) { std::string r(p); r += char('0' + a); if (b < 10) { r += '_'; r += char('0' + b); } return r; }
static const size_t huge[] = {2, size_t(1) << 31, size_t(1) << 32, (size_t(1) << 32) + 1, size_t(1) << 40};
template <size_t dim> static void go() {
  const uint64_t lmax = vf_param("LEN", 3), bmax = vf_param("BMAX", 3); uint64_t levels = vf_concretize(vf_u64("levels", 0, vf_param("LEVELS", 2)));
  std::vector<size_t> mn(dim), mx(dim), st(dim, 1), ext(dim); size_t total = 1;
  for (size_t d = 0; d < dim; d++) { mn[d] = vf_u64(nm("min", d).c_str(), 0, 1ull << 40); size_t len = vf_concretize(vf_u64(nm("len", d).c_str(), 0, lmax)); mx[d] = mn[d] + len; ext[d] = len; total *= ext[d]; }
  VF_NS::blocking_pseudo_execution_policy<size_t> policy(dim);
#ifndef VF_LOOPED
  if (vf_concretize(vf_u64("steps", 0, 1))) { for (size_t d = 0; d < dim; d++) st[d] = vf_concretize(vf_u64(nm("step", d).c_str(), 1, vf_param("STEP", 2))); policy.set_final_steps(st); vf_reach(30); }
#endif
  for (uint64_t l = 0; l < levels; l++) {
    std::vector<size_t> b(dim); for (size_t d = 0; d < dim; d++) b[d] = vf_param("HUGE", 0) ? huge[vf_concretize(vf_u64(nm("block", l, d).c_str(), 0, 4))] : st[d] * vf_concretize(vf_u64(nm("block", l, d).c_str(), 1, bmax));
#ifdef VF_LOOPED
    policy.add_blocking(b);
#else
    std::vector<bool> p(dim); for (size_t d = 0; d < dim; d++) p[d] = vf_u64(nm("parallel", l, d).c_str(), 0, 1) != 0;
    policy.add_blocking(b, p);
#endif
  }
  if (levels) vf_hpx::S::policy = vf_concretize(vf_u64("schedule", 0, vf_param("PMAX", 2)));
  std::vector<size_t> cnt(total, 0), mn0(mn), mx0(mx);
  auto hit = [&](const std::array<size_t, dim> &i) {
    size_t p = 0; bool in = true; for (size_t d = 0; d < dim; d++) { in = in & (i[d] >= mn0[d]) & (i[d] < mx0[d]); p = p * ext[d] + (i[d] - mn0[d]); }
    vf_assert(in, "the body is only called with indices of the range"); if (in) cnt[p]++; };
  auto check = [&]() {
    for (size_t e = 0; e < total; e++) {
      size_t q = e, want = 1; for (size_t d = dim; d-- > 0;) { size_t i = q % ext[d]; q /= ext[d]; if (i % st[d]) want = 0; }
      vf_assert(cnt[e] == want, "every index of the range is visited exactly once");
    } };
  typedef std::function<void(const std::array<size_t, dim> &)> fn;
  auto iterate = [&](VF_NS::blocking_pseudo_execution_policy<size_t> &pol, std::vector<size_t> &lo, std::vector<size_t> &hi, fn &f) {
#ifdef VF_LOOPED
    VF_NS::iterate_indices(pol, lo, hi, [&f](const std::vector<size_t> &v) { vf_assert(v.size() == dim, "the index has the dimension of the range"); std::array<size_t, dim> i; for (size_t d = 0; d < dim; d++) i[d] = v[d]; f(i); });
#else
    VF_NS::iterate_indices<dim>(pol, lo, hi, [&f](auto... a) { f(std::array<size_t, dim>{{(size_t)a...}}); });
#endif
  };
  const bool nested = vf_param("NESTED", 0); uint64_t calls = 0;
  // the body runs another iteration, with a policy of its own
  auto inner = [&]() {
    VF_NS::blocking_pseudo_execution_policy<size_t> p2(dim); std::vector<size_t> lo(dim), hi(dim), bl(dim, 2); for (size_t d = 0; d < dim; d++) { lo[d] = 5 + d; hi[d] = lo[d] + 3; }
#ifdef VF_LOOPED
    p2.add_blocking(bl);
#else
    p2.add_blocking(bl, std::vector<bool>(dim, false));
#endif
    std::array<uint64_t, 27> seen; seen.fill(0); size_t n = 1; for (size_t d = 0; d < dim; d++) n *= 3;
    fn f = [&](const std::array<size_t, dim> &i) { size_t p = 0; bool in = true; for (size_t d = 0; d < dim; d++) { in = in && i[d] >= 5 + d && i[d] < 8 + d; p = p * 3 + (i[d] - 5 - d); } vf_assert(in, "an iteration inside the body stays in its range"); if (in) seen[p]++; };
    iterate(p2, lo, hi, f); bool all = true; for (size_t e = 0; e < n; e++) all = all && seen[e] == 1; vf_assert(all, "an iteration inside the body visits every index of its range once"); };
  fn f = [&](const std::array<size_t, dim> &i) { bool inside = false; if (nested) { vf_quiet q; calls++; inside = calls == 1 || calls == 3; } if (inside) inner(); hit(i); };
  iterate(policy, mn, mx, f); check();
  if (vf_param("AGAIN", 0)) { // the same policy serves another range
    for (size_t d = 0; d < dim; d++) { const size_t len = vf_concretize(vf_u64(nm("len", d).c_str(), 0, lmax)); mn[d] = mn0[d] = vf_u64(nm("min", d).c_str(), 0, 1ull << 40); mx[d] = mx0[d] = mn[d] + len; ext[d] = len; }
    total = 1; for (size_t d = 0; d < dim; d++) total *= ext[d]; cnt.assign(total, 0); iterate(policy, mn, mx, f); check();
  }
  vf_reach(dim); vf_reach(10 + levels);
}
#ifndef VF_LOOPED
// steps, blocks and extents of up to 2^40 indices, with few steps per direction
template <size_t dim> static void wide() {
  std::vector<size_t> mn(dim), mx(dim), st(dim), b(dim); size_t n[dim], total = 1; std::vector<bool> par(dim);
  for (size_t d = 0; d < dim; d++) {
    const size_t large[] = {size_t(1) << 31, size_t(1) << 32, (size_t(1) << 40) - 3, 65537, 257};
    mn[d] = vf_u64(nm("min", d).c_str(), 0, 1ull << 40); st[d] = large[vf_concretize(vf_u64(nm("step", d).c_str(), 0, d ? 1 : 4))]; const size_t q = vf_concretize(vf_u64(nm("steps", d).c_str(), 0, vf_param("LEN", 2)));
    const uint64_t form = vf_concretize(vf_u64(nm("rest", d).c_str(), 0, 2)); const size_t r = form == 0 ? 0 : form == 1 ? 1 : st[d] - 1; const bool more = r > 0; mx[d] = mn[d] + q * st[d] + r; n[d] = q + more; total *= n[d]; }
  VF_NS::blocking_pseudo_execution_policy<size_t> policy(dim); policy.set_final_steps(st);
  const uint64_t levels = vf_concretize(vf_u64("levels", 0, vf_param("LEVELS", 1)));
  for (uint64_t l = 0; l < levels; l++) { for (size_t d = 0; d < dim; d++) { b[d] = st[d] * vf_concretize(vf_u64(nm("block", l, d).c_str(), 1, 2)); par[d] = vf_u64(nm("parallel", l, d).c_str(), 0, 1) != 0; } policy.add_blocking(b, par); }
  if (levels) vf_hpx::S::policy = vf_concretize(vf_u64("schedule", 0, vf_param("PMAX", 1)));
  const std::vector<size_t> mn0(mn), st0(st); std::vector<size_t> cnt(total, 0);
  VF_NS::iterate_indices<dim>(policy, mn, mx, [&](auto... a) {
    const std::array<size_t, dim> i{{(size_t)a...}}; size_t p = 0; bool in = true;
    for (size_t d = 0; d < dim; d++) { size_t k = 0; bool on = false; for (size_t q = 0; q < n[d]; q++) if (i[d] == mn0[d] + q * st0[d]) { k = q; on = true; break; } in = in && on; p = p * n[d] + k; }
    vf_assert(in, "the body is only called with indices of the range"); if (in) cnt[p]++; });
  for (size_t e = 0; e < total; e++) vf_assert(cnt[e] == 1, "every index of the range is visited exactly once");
  vf_reach(dim); vf_reach(10 + levels); if (total > 1) vf_reach(40);
}
VF_MAIN { const uint64_t w = vf_param("DIM", 2); if (vf_param("WIDE", 0)) { w == 1 ? wide<1>() : w == 2 ? wide<2>() : wide<3>(); return; } w == 1 ? go<1>() : w == 2 ? go<2>() : go<3>(); }
#else
VF_MAIN { const uint64_t w = vf_param("DIM", 2); w == 1 ? go<1>() : w == 2 ? go<2>() : go<3>(); }
#endif
