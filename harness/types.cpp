// Element types other than double: integers of 8, 32 and 64 bits. Elements of the templates are
// moved or copied without being changed; integer products are those of the integer type.
// -DVF_WHAT: 1 naive product, 12 make_tiled, 13 tile_view, 14 iterate_tiles, 15 undo_tiling, 17 transpose, 18 builders
#if VF_WHAT >= 12 && VF_WHAT <= 15
#include "tiles.h"
#else
#include "common.h"
#include <boost/align/aligned_allocator.hpp>
#if VF_WHAT == 1
#include "reference_kernels/naive.hpp"
#elif VF_WHAT == 17
#include "util/transpose_matrix.hpp"
#else
#include "util/create_identity_matrix.hpp"
#include "util/pattern_matrices.hpp"
#endif
#endif
template <class T> struct el {
  static T any(const std::string &n) { return (T)vf_u64(n.c_str(), 0, sizeof(T) == 8 ? ~0ull : (1ull << 8 * (sizeof(T) % 8)) - 1); }
  static bool same(const T &a, const T &b) { return a == b; }
};
template <class V> static V anyv(size_t n, const char *name) { V v(n); for (size_t e = 0; e < n; e++) v[e] = el<typename V::value_type>::any(name + std::to_string(e)); return v; }
template <class V, class W> static void all_same(const V &a, const W &b, const char *msg) { vf_assert(a.size() == b.size(), msg); if (a.size() != b.size()) return; bool ok = true; for (size_t e = 0; e < a.size(); e++) ok = ok & el<typename V::value_type>::same(a[e], b[e]); vf_assert(ok, msg); }

#if VF_WHAT == 1
template <class T> static void go() {
  const uint64_t N = vf_concretize(vf_u64("N", 0, vf_param("NMAX", 4))), tr = vf_concretize(vf_u64("transposed", 0, 1)), side = vf_concretize(vf_u64("side", 0, 1));
  vf_keep_i2f(1); vf_omp_threads(vf_u64("threads", 1, 2)); std::vector<T> A(N * N), B(N * N); uint64_t x = 0x9e3779b97f4a7c15ull; // one factor arbitrary, the other fixed and using all bits
  for (auto &e : A) { x = x * 6364136223846793005ull + 1442695040888963407ull; e = (T)(x >> 7 ^ x << 11); } for (auto &e : B) { x = x * 6364136223846793005ull + 1442695040888963407ull; e = (T)(x >> 9 ^ x << 13); }
  if (side) B = anyv<std::vector<T>>(N * N, "B"); else A = anyv<std::vector<T>>(N * N, "A");
  const std::vector<T> A0(A), B0(B); const std::vector<T> C = tr ? naive_matrix_multiply_transposed<T>(N, A, B) : naive_matrix_multiply<T>(N, A, B);
  vf_assert(C.size() == N * N, "the result has N*N elements"); if (C.size() != N * N) return;
  for (uint64_t i = 0; i < N; i++) for (uint64_t j = 0; j < N; j++) { T s = 0; for (uint64_t k = 0; k < N; k++) s += A0[i * N + k] * (tr ? B0[j * N + k] : B0[k * N + j]); vf_assert(C[i * N + j] == s, "C[i][j] = sum_k A[i][k]*B[k][j] in the arithmetic of the element type"); }
  all_same(A, A0, "A unchanged"); all_same(B, B0, "B unchanged"); vf_reach(tr); vf_reach(2 + side);
}
VF_MAIN { switch (vf_concretize(vf_u64("type", 0, 2))) { case 0: return go<uint64_t>(); case 1: return go<uint32_t>(); default: return go<uint8_t>(); } }
#elif VF_WHAT == 17
template <class V> static void go() {
  const uint64_t r = vf_concretize(vf_u64("rows", 0, vf_param("NMAX", 4))), c = vf_concretize(vf_u64("columns", 0, vf_param("NMAX", 4)));
  V x = anyv<V>(r * c, "x"); const V x0(x); V y = util::transpose_matrix(r, c, x); vf_assert(y.size() == r * c, "the transposed matrix has as many elements"); if (y.size() != r * c) return;
  bool ok = true; for (uint64_t i = 0; i < r; i++) for (uint64_t j = 0; j < c; j++) ok = ok & el<typename V::value_type>::same(y[i * c + j], x0[j * r + i]); vf_assert(ok, "result[i][j] = original[j][i]");
  all_same(x, x0, "the original is unchanged"); all_same(util::transpose_matrix(c, r, y), x0, "transposing twice gives the original"); vf_reach(1);
}
template <class T> static void square() {
  const uint64_t n = vf_concretize(vf_u64("n", 0, vf_param("NMAX", 4))); std::vector<T> x = anyv<std::vector<T>>(n * n, "x"); const std::vector<T> x0(x); std::vector<T> y = util::transpose_matrix(n, x); vf_assert(y.size() == n * n, "N*N elements"); if (y.size() != n * n) return;
  bool ok = true; for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) ok = ok & el<T>::same(y[i * n + j], x0[j * n + i]); vf_assert(ok, "result[i][j] = original[j][i]"); all_same(x, x0, "the original is unchanged"); vf_reach(0);
}
VF_MAIN { const uint64_t sq = vf_concretize(vf_u64("square", 0, 1)); switch (vf_concretize(vf_u64("type", 0, 2))) { case 0: return sq ? square<uint8_t>() : go<std::vector<uint8_t>>(); case 1: return sq ? square<int64_t>() : go<std::vector<int64_t, boost::alignment::aligned_allocator<int64_t, 64>>>(); default: return sq ? square<uint32_t>() : go<std::vector<uint32_t>>(); } }
#elif VF_WHAT == 18
template <class T> static void go() {
  const uint64_t n = vf_concretize(vf_u64("n", 0, vf_param("NMAX", 6)));
  const std::vector<T> e = util::create_enumerating_matrix<T>(n), d = util::create_identity_matrix<T>(n); vf_assert(e.size() == n * n && d.size() == n * n, "N*N elements"); if (e.size() != n * n || d.size() != n * n) return;
  bool ok = true, id = true; for (uint64_t i = 0; i < n * n; i++) { ok = ok && e[i] == (T)i; id = id && d[i] == (T)(n && i / n == i % n); } vf_assert(ok, "element (i,j) is i * N + j"); vf_assert(id, "ones on the diagonal, zeros elsewhere"); vf_reach(0);
}
VF_MAIN { switch (vf_concretize(vf_u64("type", 0, 2))) { case 0: return go<uint16_t>(); case 1: return go<int64_t>(); default: return go<uint32_t>(); } }
#else
template <size_t dim, class V> static void go() {
  typedef typename V::value_type T; typedef typename V::allocator_type U;
  layout<dim> l; l.make("tile", "count", vf_param("TMAX", 2), vf_param("CMAX", 2), VF_WHAT == 13, vf_param("EMAX", 16)); V x = anyv<V>(l.elems, "x"); const V x0(x);
#if VF_WHAT == 12
  const V t = memory_layout::make_tiled<dim>(x, l.info); vf_assert(t.size() == l.elems, "the tiled array has as many elements as the original"); if (t.size() != l.elems) return;
  bool ok = true; for (size_t e = 0; e < l.elems; e++) ok = ok & el<T>::same(t[l.where(e)], x0[e]); vf_assert(ok, "the element at a coordinate is stored in its tile, tiles and elements of a tile in row-major order"); all_same(x, x0, "the original is unchanged");
#elif VF_WHAT == 15
  const V u = memory_layout::undo_tiling<dim>(x, l.info); vf_assert(u.size() == l.elems, "undoing a tiling keeps the number of elements"); if (u.size() != l.elems) return;
  bool ok = true; for (size_t e = 0; e < l.elems; e++) ok = ok & el<T>::same(u[e], x0[l.where(e)]); vf_assert(ok, "undo_tiling puts the element of a tile at its coordinate"); all_same(x, x0, "the tiled input is unchanged"); V u2(u); all_same(memory_layout::make_tiled<dim>(u2, l.info), x0, "tiling an untiled array gives the tiled array");
#elif VF_WHAT == 14
  size_t k = 0; const bool wr = vf_concretize(vf_u64("write", 0, 1)) != 0; const T mark = el<T>::any("mark");
  memory_layout::iterate_tiles<dim>(x, l.info, [&](auto view) { vf_assert(k < l.tiles && view.size() == l.tile, "one call per tile, with a view of the size of a tile"); for (size_t p = 0; p < l.tile; p++) { vf_assert(&view[p] == &x[k * l.tile + p], "the view of a tile covers the elements of that tile"); vf_assert(el<T>::same(view[p], x0[k * l.tile + p]), "contents of the tile"); if (wr && (k + p) % 2) view[p] = mark; } k++; });
  vf_assert(k == l.tiles, "every tile is visited"); bool ok = true; for (size_t p = 0; p < l.elems; p++) ok = ok & el<T>::same(x[p], wr && (p / l.tile + p % l.tile) % 2 ? mark : x0[p]); vf_assert(ok, "visiting changes nothing but what the visitor writes");
#else
  size_t ti[dim]; for (size_t d = 0; d < dim; d++) ti[d] = vf_concretize(vf_u64((std::string("tile_index") + char('0' + d)).c_str(), 0, l.n[d] - 1)); const T mark = el<T>::any("mark");
  memory_layout::tile_view<dim, T, U> v(x, ti, l.info); const size_t base = layout<dim>::pos(ti, l.n) * l.tile, p = vf_concretize(vf_u64("position", 0, l.tile - 1));
  vf_assert(v.size() == l.tile, "size() is the number of elements of a tile"); std::array<size_t, dim> c; size_t e = p; for (size_t d = dim; d-- > 0;) { c[d] = e % l.t[d]; e /= l.t[d]; }
  vf_assert(v.flat_index(c) == p && &v[p] == &x[base + p] && &v[c] == &x[base + p], "all ways of addressing an element of a tile give the element of the original with that coordinate"); vf_assert(el<T>::same(v[c], x0[base + p]), "an element read through the view is the element of the tiled array"); v[c] = mark;
  bool ok = true; for (size_t q = 0; q < l.elems; q++) ok = ok & el<T>::same(x[q], q == base + p ? mark : x0[q]); vf_assert(ok, "a write through the view changes that element and no other");
#endif
  vf_reach(dim);
}
template <class V> static void dims() { switch (vf_dim()) { case 1: return go<1, V>(); case 2: return go<2, V>(); default: return go<3, V>(); } }
VF_MAIN { switch (vf_concretize(vf_u64("type", 0, 2))) { case 0: return dims<std::vector<uint8_t>>(); case 1: return dims<std::vector<int64_t, boost::alignment::aligned_allocator<int64_t, 64>>>(); default: return dims<std::vector<uint32_t>>(); } }
#endif
