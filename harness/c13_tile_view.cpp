// A view addresses exactly the elements of its tile.
#include "tiles.h"
template <class View> static double &at(View &v, const std::array<size_t, 1> &i) { return v(i[0]); }
template <class View> static double &at(View &v, const std::array<size_t, 2> &i) { return v(i[0], i[1]); }
template <class View> static double &at(View &v, const std::array<size_t, 3> &i) { return v(i[0], i[1], i[2]); }
template <class View> static double &at(View &v, const std::array<size_t, 4> &i) { return v(i[0], i[1], i[2], i[3]); }
template <class View> static double &at(View &v, const std::array<size_t, 5> &i) { return v(i[0], i[1], i[2], i[3], i[4]); }
template <class View> static double &at(View &v, const std::array<size_t, 6> &i) { return v(i[0], i[1], i[2], i[3], i[4], i[5]); }
template <size_t dim> static void go() {
  layout<dim> l; l.make("tile", "count", vf_param("TMAX", 3), vf_param("CMAX", 3), 1, vf_param("EMAX", 64));
  std::vector<double> tiled(l.elems); vf_data(tiled, "x"); std::vector<double> t0(tiled);
  size_t ti[dim]; for (size_t d = 0; d < dim; d++) { const std::string nm = std::string("tile_index") + char('0' + d); if (vf_param("LARGE", 0) || vf_param("DEEP", 0) || vf_param("SIDES", 0)) { uint64_t k = vf_concretize(vf_u64(nm.c_str(), 0, std::min<uint64_t>(2, l.n[d] - 1))); ti[d] = k == 0 ? 0 : k == 1 ? l.n[d] - 1 : l.n[d] / 2; } else ti[d] = vf_concretize(vf_u64(nm.c_str(), 0, l.n[d] - 1)); }
  size_t ti0[dim]; for (size_t d = 0; d < dim; d++) ti0[d] = ti[d];
  std::unique_ptr<std::vector<memory_layout::tiling_info_dim>> desc(new std::vector<memory_layout::tiling_info_dim>(l.info));
  memory_layout::tile_view<dim, double, std::allocator<double>> v(tiled, ti, *desc);
  for (auto &i : *desc) { i.tile_size_dir++; i.stride += 7; } desc.reset(); // the view does not depend on the description any more
  // another view of another array with another layout lives at the same time
  std::vector<memory_layout::tiling_info_dim> oinfo(dim); size_t oti[dim], osize = 1, otile = 1; for (size_t d = 0; d < dim; d++) { oinfo[d].tile_size_dir = 2 + d % 2; oinfo[d].stride = 2 * oinfo[d].tile_size_dir; oti[d] = 1; osize *= oinfo[d].stride; otile *= oinfo[d].tile_size_dir; }
  std::vector<double> oarr(osize, 5.0); memory_layout::tile_view<dim, double, std::allocator<double>> ov(oarr, oti, oinfo);
  vf_assert(v.size() == l.tile, "size() is the number of elements of a tile");
  for (size_t d = 0; d < dim; d++) { vf_assert(ti[d] == ti0[d], "the tile index given to the view is not changed"); vf_assert(v.get_tile_index()[d] == ti0[d], "get_tile_index() is the index of the tile"); vf_assert(v.get_tiles_dir()[d] == l.n[d], "get_tiles_dir() is the number of tiles per direction"); }
  memory_layout::tile_view<dim, double, std::allocator<double>> w(v); // a copy views the same tile
  size_t base = layout<dim>::pos(ti0, l.n) * l.tile; bool wr = vf_u64("write", 0, 1) != 0;
  size_t seen = 0;
  for (size_t e = 0; e < l.elems; e++) {
    size_t a[dim], in[dim]; size_t p = l.where(e, a, in); bool mine = true; for (size_t d = 0; d < dim; d++) mine = mine && a[d] == ti0[d]; if (!mine) continue; seen++;
    std::array<size_t, dim> ix; for (size_t d = 0; d < dim; d++) ix[d] = in[d];
    vf_assert(v.flat_index(ix) == p - base, "flat_index() is the row-major position inside the tile");
    vf_assert(&v[ix] == &tiled[p] && &at(v, ix) == &tiled[p] && &v[p - base] == &tiled[p] && &w[ix] == &tiled[p], "all ways of addressing an element of a tile give the element of the original with that coordinate");
    vf_eqf(v[ix], t0[p], "an element read through the view is the element of the tiled array", p);
    if (wr) at(v, ix) = (double)(400000 + p);
  }
  vf_assert(seen == l.tile, "internal"); std::array<size_t, dim> olast; for (size_t d = 0; d < dim; d++) olast[d] = oinfo[d].tile_size_dir - 1;
  vf_assert(ov.size() == otile && &ov[0] == &oarr[osize - otile] && &ov[olast] == &oarr[osize - 1] && ov[olast] == 5.0, "another view denotes the elements of its own tile");
  for (size_t p = 0; p < l.elems; p++) { if (wr && p >= base && p < base + l.tile) vf_eqf(tiled[p], (double)(400000 + p), "a write through the view changes that element", p); else vf_eqf(tiled[p], t0[p], "elements outside the tile are untouched", p); }
  vf_reach(dim); if (l.tiles > 1 && l.tile > 1) vf_reach(10 + dim); if (wr) vf_reach(20);
}
// index arithmetic alone, with extents and coordinates left symbolic
template <size_t dim> static void arith() {
  std::array<size_t, dim> e, c; size_t ea[dim], ca[dim]; const uint64_t m = vf_param("AMAX", 7);
  for (size_t d = 0; d < dim; d++) { e[d] = ea[d] = vf_u64((std::string("extent") + char('0' + d)).c_str(), 1, m); c[d] = ca[d] = vf_u64((std::string("coord") + char('0' + d)).c_str(), 0, m - 1); vf_assume(c[d] < e[d]); }
  size_t want = layout<dim>::pos(ca, ea); vf_assert(memory_layout::flat_index(c, e) == want, "flat_index of an std::array is the row-major position"); vf_assert(memory_layout::flat_index<dim>(ca, ea) == want, "flat_index of an array is the row-major position");
  vf_reach(30 + dim);
}
// sizes and positions beyond 2^32: a description of a huge layout, tile and coordinates left symbolic, no element is accessed
template <size_t dim> static void huge() {
  static const size_t T[3][6] = {{70001, 65537, 3, 5, 2, 7}, {9, 100003, 65539, 2, 3, 2}, {4294967311ull, 2, 3, 11, 2, 3}}; const uint64_t k = vf_concretize(vf_u64("layout", 0, 2));
  std::vector<double> none; std::vector<memory_layout::tiling_info_dim> info; size_t t[dim], n[dim], ti[dim]; size_t tile = 1;
  for (size_t d = 0; d < dim; d++) { memory_layout::tiling_info_dim i; t[d] = i.tile_size_dir = T[k][d]; n[d] = d == 0 ? 65537 : 1 + (d + k) % 2; i.stride = t[d] * n[d]; info.push_back(i); tile *= t[d]; ti[d] = vf_u64((std::string("tile_index") + char('0' + d)).c_str(), 0, n[d] - 1); }
  memory_layout::tile_view<dim, double, std::allocator<double>> v(none, ti, info);
  vf_assert(v.size() == tile, "size() is the number of elements of a tile");
  std::array<size_t, dim> c, e; size_t ca[dim], ea[dim];
  for (size_t d = 0; d < dim; d++) { vf_assert(v.get_tile_index()[d] == ti[d], "get_tile_index() is the index of the tile"); vf_assert(v.get_tiles_dir()[d] == n[d], "get_tiles_dir() is the number of tiles per direction"); c[d] = ca[d] = vf_u64((std::string("coord") + char('0' + d)).c_str(), 0, t[d] - 1); e[d] = ea[d] = t[d]; }
  const size_t want = layout<dim>::pos(ca, t); vf_assert(v.flat_index(c) == want, "flat_index() is the row-major position inside the tile");
  vf_assert(memory_layout::flat_index(c, e) == want, "flat_index of an std::array is the row-major position"); vf_assert(memory_layout::flat_index<dim>(ca, ea) == want, "flat_index of an array is the row-major position");
  vf_reach(40 + dim);
}
#define GO(d) go<d>()
#define ARITH(d) arith<d>()
#define HUGE_(d) huge<d>()
VF_MAIN {
  uint64_t w = vf_dim(), c = vf_concretize(vf_u64("case", 0, vf_param("LARGE", 0) ? 0 : vf_param("DEEP", 0) ? 1 : 2)); if (vf_param("DEEP", 0)) c *= 2;
  if (c == 2) VF_DIMS(w, HUGE_); else if (c == 1) VF_DIMS(w, ARITH); else VF_DIMS(w, GO);
}
