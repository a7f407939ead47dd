// iterate_tiles: every tile exactly once, in row-major order of the tile indices, with a view of that tile.
#include "tiles.h"
template <class V> struct visitor { std::function<void(V)> *f; void operator()(V v) const { (*f)(v); } }; // one type of visitor for both arrays
template <size_t dim> static void go() {
  layout<dim> l; l.make("tile", "count", vf_param("TMAX", 3), vf_param("CMAX", 3), 0, vf_param("EMAX", 64));
  std::vector<double> tiled(l.elems); vf_data(tiled, "x"); std::vector<double> t0(tiled);
  bool wr = vf_u64("write", 0, 1) != 0; size_t k = 0; const bool nested = vf_param("NESTED", 1);
  std::vector<memory_layout::tiling_info_dim> oinfo(dim); for (auto &i : oinfo) i.tile_size_dir = i.stride = 1; oinfo[dim - 1].tile_size_dir = 2; oinfo[dim - 1].stride = 6; if (dim > 1) oinfo[0].stride = 2; const size_t want = dim > 1 ? 6 : 3; std::vector<double> other(2 * want, 3.0);
  typedef memory_layout::tile_view<dim, double, std::allocator<double>> V; std::function<void(V)> outer;
  auto visit = [&](auto view) {
    if (nested && (k < 2 || k == l.tiles / 2)) { // the visitor iterates over the tiles of another array
      size_t seen = 0; std::function<void(V)> inner = [&](V v) { vf_assert(v.size() == 2 && seen < want && &v[0] == &other[2 * seen] && v.get_tiles_dir()[dim - 1] == 3, "an iteration inside a visitor visits the tiles of its own array"); seen++; }; memory_layout::iterate_tiles<dim>(other, oinfo, visitor<V>{&inner}); vf_assert(seen == want, "an iteration inside a visitor visits every tile"); }
    vf_assert(k < l.tiles, "not more calls than tiles"); size_t e = k, ix[dim]; for (size_t d = dim; d-- > 0;) { ix[d] = e % l.n[d]; e /= l.n[d]; }
    for (size_t d = 0; d < dim; d++) { vf_assert(view.get_tile_index()[d] == ix[d], "tiles are visited in row-major order of their indices, each once"); vf_assert(view.get_tiles_dir()[d] == l.n[d], "the view knows the number of tiles per direction"); }
    vf_assert(view.size() == l.tile, "the view has the size of a tile");
    for (size_t p = 0; p < l.tile; p++) { vf_assert(&view[p] == &tiled[k * l.tile + p], "the view of a tile covers the elements of that tile"); vf_eqf(view[p], t0[k * l.tile + p], "contents of the tile", k * l.tile + p); if (wr) view[p] = (double)(400000 + k); }
    k++; };
  if (nested) { outer = visit; memory_layout::iterate_tiles<dim>(tiled, l.info, visitor<V>{&outer}); } else memory_layout::iterate_tiles<dim>(tiled, l.info, visit);
  vf_assert(k == l.tiles, "every tile is visited");
  for (size_t p = 0; p < l.elems; p++) vf_eqf(tiled[p], wr ? (double)(400000 + p / l.tile) : t0[p], "visiting changes nothing but what the visitor writes", p);
  vf_reach(dim); if (l.tiles > 1 && l.tile > 1) vf_reach(10 + dim);
}
#define GO(d) go<d>()
VF_MAIN { uint64_t w = vf_dim(); VF_DIMS(w, GO); }
