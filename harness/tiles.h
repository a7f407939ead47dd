// Tiled layouts of dimension dim: tile sizes and numbers of tiles per direction are arbitrary within bounds.
#pragma once
#include "common.h"
#include "memory_layout/tile_array.hpp"
#include "memory_layout/tile_iterator.hpp"
#include <boost/align/aligned_allocator.hpp>
template <size_t dim> struct layout {
  size_t t[dim], n[dim], s[dim]; size_t elems, tile, tiles; std::vector<memory_layout::tiling_info_dim> info;
  void make(const char *tn, const char *nn, uint64_t tmax, uint64_t nmax, uint64_t nmin, uint64_t emax) {
    elems = tile = tiles = 1;
    if (vf_param("LARGE", 0)) { // larger layouts: more than 2^8 elements per tile, tiles or extent, more than 2^16 elements
      static const size_t T[4][4][2] = {{{300, 250}, {16, 19}, {4, 7}, {2, 3}}, {{7, 300}, {24, 12}, {5, 9}, {3, 4}}, {{1, 600}, {1, 257}, {6, 11}, {4, 2}}, {{260, 1}, {257, 2}, {2, 13}, {5, 3}}};
      const uint64_t k = vf_concretize(vf_u64("layout", 0, 3));
      for (size_t d = 0; d < dim; d++) { const size_t *x = dim == 1 ? T[k][0] : dim == 2 ? T[(k + d) % 4][1] : T[(k + d) % 4][2 + (dim == 4)]; t[d] = x[0]; n[d] = x[1]; s[d] = t[d] * n[d]; elems *= s[d]; tile *= t[d]; tiles *= n[d]; memory_layout::tiling_info_dim i; i.tile_size_dir = t[d]; i.stride = s[d]; info.push_back(i); }
      return;
    }
    if (vf_param("DEEP", 0)) { // many dimensions: eight layouts with different extents per direction
      const uint64_t k = vf_concretize(vf_u64("layout", 0, 7));
      for (size_t d = 0; d < dim; d++) { t[d] = 1 + (d * 2 + k) % 3; n[d] = k < 4 ? 1 + (d + k) % 2 : 1 + (2 * d + k / 4 + k) % 3; s[d] = t[d] * n[d]; elems *= s[d]; tile *= t[d]; tiles *= n[d]; memory_layout::tiling_info_dim i; i.tile_size_dir = t[d]; i.stride = s[d]; info.push_back(i); }
      return;
    }
    for (size_t d = 0; d < dim; d++) {
      t[d] = vf_concretize(vf_u64((std::string(tn) + char('0' + d)).c_str(), 1, tmax)); n[d] = vf_concretize(vf_u64((std::string(nn) + char('0' + d)).c_str(), nmin, nmax));
      s[d] = t[d] * n[d]; elems *= s[d]; tile *= t[d]; tiles *= n[d]; vf_assume(elems <= emax);
      memory_layout::tiling_info_dim i; i.tile_size_dir = t[d]; i.stride = s[d]; info.push_back(i);
    }
  }
  // position in row-major order of coordinate c in an array of extents e
  static size_t pos(const size_t *c, const size_t *e) { size_t r = 0; for (size_t d = 0; d < dim; d++) r = r * e[d] + c[d]; return r; }
  // where the element with row-major position e lies in the tiled array
  size_t where(size_t e, size_t *ti = nullptr, size_t *in = nullptr) const {
    size_t c[dim], a[dim], b[dim]; for (size_t d = dim; d-- > 0;) { c[d] = e % s[d]; e /= s[d]; a[d] = c[d] / t[d]; b[d] = c[d] % t[d]; }
    if (ti) for (size_t d = 0; d < dim; d++) { ti[d] = a[d]; in[d] = b[d]; }
    return pos(a, n) * tile + pos(b, t);
  }
};

// F(dim) for the dimension DIMMIN..DIM
#define VF_DIMS(w, F) do { switch (w) { case 1: F(1); break; case 2: F(2); break; case 3: F(3); break; case 4: F(4); break; case 5: F(5); break; default: F(6); } } while (0)
inline uint64_t vf_dim() { return vf_concretize(vf_u64("dim", vf_param("DIMMIN", 1), vf_param("DIM", 3))); }
