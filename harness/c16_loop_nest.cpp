// loop_nest: the body sees exactly the index tuples of the nested loops, in lexicographic order.
#include "common.h"
#include "memory_layout/loop_nest.hpp"
template <class T> struct nest_body { std::function<void(const T *)> *f; template <class I> void operator()(const I &i) const { (*f)(&i[0]); } };
template <size_t dim, class T, bool ARR> static void go() {
  std::array<T, dim> mn, mx, st; T a[dim], b[dim], c[dim]; std::vector<std::array<T, dim>> want;
  const uint64_t span = vf_param("SPAN", 4), smax = vf_param("STEP", 3); const bool wide = vf_param("WIDE", 0), deep = vf_param("DEEP", 0), lng = vf_param("LONG", 0); const uint64_t form = lng ? 1 : deep || wide ? vf_concretize(vf_u64("form", 0, 2)) : 0;
  uint64_t cnt[dim]; uint64_t total = 1; bool isS = T(-1) < T(0);
  for (size_t d = 0; d < dim; d++) {
    std::string k(1, char('0' + d)); T base; const uint64_t half = 1ull << (8 * sizeof(T) - 2); // lower bounds anywhere in the lower three quarters of the type
    if (wide || lng) base = form == 0 ? T(0) : form == 1 ? (isS ? T(-(int64_t)half) : T(2 * half + 7)) : T(half - 12345 * d);
    else if (isS) base = (T)(int64_t)(vf_u64(("base" + k).c_str(), 0, 2 * half) - half); else base = (T)vf_u64(("base" + k).c_str(), 0, 3 * half);
    T len, s;
    if (wide) { // steps and extents anywhere up to an eighth of the type, at most three iterations
      s = (T)vf_u64(("step" + k).c_str(), 1, half / 8); uint64_t q = vf_concretize(vf_u64(("steps" + k).c_str(), 0, 2)); const uint64_t f = vf_concretize(vf_u64(("rest" + k).c_str(), 0, 2)); T r = f == 0 ? T(0) : f == 1 ? T(1) : T(s - 1); if (f) vf_assume(s > 1); const bool more = f != 0;
      len = T(q * s + r); cnt[d] = q + more;
    } else if (deep) { len = (T)(1 + (d + form) % 3); s = (T)(1 + (d + form) % 2); cnt[d] = ((uint64_t)len + s - 1) / s; }
    else if (lng) { const uint64_t n = vf_concretize(vf_u64(("len" + k).c_str(), 0, span)), t = vf_concretize(vf_u64(("step" + k).c_str(), 1, smax)); len = (T)n; s = (T)t; cnt[d] = (n + t - 1) / t; }
    else { len = (T)vf_u64(("len" + k).c_str(), 0, span), s = (T)vf_u64(("step" + k).c_str(), 1, smax); cnt[d] = 0; for (uint64_t q = 0; q <= span; q++) if (q * (uint64_t)s < (uint64_t)len) cnt[d]++; else break; }
    T neg = deep || lng ? T(0) : (T)vf_u64(("below" + k).c_str(), 0, 1);
    mn[d] = base; mx[d] = len > 0 ? T(base + len) : T(base - (base > 0 || isS ? neg : T(0))); st[d] = s; a[d] = mn[d]; b[d] = mx[d]; c[d] = s;
    total *= cnt[d];
  }
  uint64_t k = 0; T step[dim]; for (size_t d = 0; d < dim; d++) step[d] = st[d];
  // the first call of the body runs another loop nest of the same type of body
  const bool nested = vf_param("NESTED", 1) && dim <= 3; typedef nest_body<T> nest;
  auto inner = [&]() {
    T x[dim], y[dim], z[dim]; std::array<T, dim> X, Y, Z; for (size_t d = 0; d < dim; d++) { X[d] = x[d] = (T)(3 + d); Y[d] = y[d] = (T)(5 + d); Z[d] = z[d] = (T)(d == 0 ? 1 : 2); }
    uint64_t seen = 0; std::function<void(const T *)> f = [&](const T *i) { bool ok = i[0] == (T)(3 + seen); for (size_t d = 1; d < dim; d++) ok = ok && i[d] == (T)(3 + d); vf_assert(ok, "a loop nest inside the body runs its own index tuples"); seen++; }; nest n{&f};
    if (ARR) util::loop_nest<dim>(X, Y, Z, n); else util::loop_nest<dim>(x, y, z, n); vf_assert(seen == 2, "a loop nest inside the body is complete"); };
  std::function<void(const T *)> outer; nest call{&outer};
  auto body = [&](const auto &i) {
    vf_assert(k < total, "not more calls than index tuples"); uint64_t e = k; T w[dim]; for (size_t d = dim; d-- > 0;) { uint64_t q = cnt[d] ? e % cnt[d] : 0; e = cnt[d] ? e / cnt[d] : 0; w[d] = (T)(mn[d] + (T)q * step[d]); }
    if (nested && k == 0) inner();
    bool ok = true; for (size_t d = 0; d < dim; d++) ok = ok & (i[d] == w[d]); vf_assert(ok, "the body is called with the index tuples of the nested loops in lexicographic order"); k++; };
  outer = body; if (nested) { if (ARR) util::loop_nest<dim>(mn, mx, st, call); else util::loop_nest<dim>(a, b, c, call); } else if (ARR) util::loop_nest<dim>(mn, mx, st, body); else util::loop_nest<dim>(a, b, c, body);
  vf_assert(k == total, "every index tuple is visited");
  for (size_t d = 0; d < dim; d++) vf_assert(st[d] == step[d] && c[d] == step[d], "the bounds are not changed");
  vf_reach(ARR ? 10 + dim : dim); if (total > 2) vf_reach(20 + (isS ? 1 : 0)); if (total == 0) vf_reach(30);
}
template <class T, bool ARR> static void dims() {
  switch (vf_concretize(vf_u64("dim", vf_param("DIMMIN", 1), vf_param("DIM", 3)))) { case 1: go<1, T, ARR>(); break; case 2: go<2, T, ARR>(); break; case 3: go<3, T, ARR>(); break; case 4: go<4, T, ARR>(); break; case 5: go<5, T, ARR>(); break; default: go<6, T, ARR>(); }
}
template <bool ARR> static void types() { switch (vf_concretize(vf_u64("type", 0, vf_param("TYPES", 3)))) { case 0: dims<size_t, ARR>(); break; case 1: dims<int, ARR>(); break; case 2: dims<uint32_t, ARR>(); break; default: dims<int64_t, ARR>(); } }
VF_MAIN { if (vf_concretize(vf_u64("array", 0, 1))) types<true>(); else types<false>(); }
