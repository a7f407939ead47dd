// undo_tiling and make_tiled are inverse to each other.
#include "tiles.h"
template <size_t dim, class V> static void go() {
  layout<dim> l; l.make("tile", "count", vf_param("TMAX", 3), vf_param("CMAX", 3), 0, vf_param("EMAX", 64));
  V x(l.elems); vf_data(x, "x"); V x0(x);
  V t = memory_layout::make_tiled<dim>(x, l.info); V u = memory_layout::undo_tiling<dim>(t, l.info);
  vf_assert(u.size() == l.elems, "undoing a tiling keeps the number of elements"); if (u.size() == l.elems) for (size_t e = 0; e < l.elems; e++) vf_eqf(u[e], x0[e], "undoing the tiling of an array gives the array", e);
  V y(x0); V z = memory_layout::undo_tiling<dim>(y, l.info); vf_assert(z.size() == l.elems, "size kept");
  if (z.size() == l.elems) for (size_t e = 0; e < l.elems; e++) { vf_eqf(z[e], x0[l.where(e)], "undo_tiling puts the element of a tile at its coordinate", e); vf_eqf(y[e], x0[e], "the tiled input is unchanged", e); }
  V b = memory_layout::make_tiled<dim>(z, l.info); if (b.size() == l.elems) for (size_t e = 0; e < l.elems; e++) vf_eqf(b[e], x0[e], "tiling an untiled array gives the tiled array", e);
  vf_reach(dim); if (l.tiles > 1 && l.tile > 1) vf_reach(10 + dim);
}
template <size_t dim> static void wrong() {
  uint64_t k = vf_concretize(vf_u64("given", 0, dim + 2)); vf_assume(k != dim); std::vector<memory_layout::tiling_info_dim> info(k); for (auto &i : info) { i.tile_size_dir = 1; i.stride = 2; }
  uint64_t e = vf_concretize(vf_u64("elements", 0, 4)); std::vector<double> org(e, 1.0); bool thrown = false;
  try { memory_layout::undo_tiling<dim>(org, info); } catch (const memory_layout::memory_layout_exception &x) { thrown = true; vf_assert(std::string(x.what()).size() > 0, "the refusal has a message"); }
  vf_assert(thrown, "a tiling description with the wrong number of dimensions is refused with memory_layout_exception"); vf_reach(20);
}
typedef std::vector<double> V; typedef std::vector<double, boost::alignment::aligned_allocator<double, 32>> W;
#define GOV(d) go<d, V>()
#define GOW(d) go<d, W>()
#define WRONG(d) wrong<d>()
VF_MAIN {
  uint64_t w = vf_dim(), c = vf_concretize(vf_u64("case", 0, vf_param("LARGE", 0) ? 1 : 2));
  if (c == 2) VF_DIMS(w, WRONG); else if (c == 1) VF_DIMS(w, GOW); else VF_DIMS(w, GOV);
}
