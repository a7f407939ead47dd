// make_tiled: tile-major order of the same elements; the input is not changed; a description of the wrong dimension is refused.
#include "tiles.h"
template <class V> static void fill(V &v, const char *name) { vf_data(v, name); }
template <size_t dim, class V> static void go() {
  layout<dim> l; l.make("tile", "count", vf_param("TMAX", 3), vf_param("CMAX", 3), 0, vf_param("EMAX", 64));
  V org(l.elems); fill(org, "x"); V org0(org);
  V tiled = memory_layout::make_tiled<dim>(org, l.info);
  vf_assert(tiled.size() == org0.size(), "the tiled array has as many elements as the original");
  if (tiled.size() == org0.size()) for (size_t e = 0; e < l.elems; e++) vf_eqf(tiled[l.where(e)], org0[e], "the element at a coordinate is stored in its tile, tiles and elements of a tile in row-major order", e);
  vf_assert(org.size() == org0.size(), "the original is unchanged"); for (size_t e = 0; e < l.elems; e++) vf_eqf(org[e], org0[e], "the original is unchanged", e);
  vf_reach(dim); if (l.tiles > 1 && l.tile > 1) vf_reach(10 + dim);
}
template <size_t dim> static void wrong() {
  uint64_t k = vf_concretize(vf_u64("given", 0, dim + 2)); vf_assume(k != dim); std::vector<memory_layout::tiling_info_dim> info(k); for (auto &i : info) { i.tile_size_dir = 1; i.stride = 2; }
  uint64_t e = vf_concretize(vf_u64("elements", 0, 4)); std::vector<double> org(e, 1.0); bool thrown = false;
  try { memory_layout::make_tiled<dim>(org, info); } catch (const memory_layout::memory_layout_exception &x) { thrown = true; vf_assert(std::string(x.what()).size() > 0, "the refusal has a message"); }
  vf_assert(thrown, "a tiling description with the wrong number of dimensions is refused with memory_layout_exception"); vf_reach(20);
}
typedef std::vector<double> V; typedef std::vector<double, boost::alignment::aligned_allocator<double, 32>> W;
#define GOV(d) go<d, V>()
#define GOW(d) go<d, W>()
#define WRONG(d) wrong<d>()
VF_MAIN {
  uint64_t w = vf_dim(), c = vf_concretize(vf_u64("case", 0, vf_param("LARGE", 0) ? 1 : 2));
  if (c == 2) VF_DIMS(w, WRONG); else if (c == 1) VF_DIMS(w, GOW); else VF_DIMS(w, GOV);
}
