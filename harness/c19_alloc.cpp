// aligned_allocator: memory for all requested elements, aligned as asked for, released once.
#include "common.h"
#include "aligned_allocator.hpp"
struct big { double v[5]; };
template <class T> static void go(uint64_t n, uint64_t al) {
  static const uint64_t S[] = {0, 1, 3, 127, 200, 255}; const bool large = vf_param("LARGE", 0); vf_malloc_skew(16 * (large ? S[vf_concretize(vf_u64("skew", 0, 5))] : vf_concretize(vf_u64("skew", 0, vf_param("SKEW", 15))))); // where the underlying memory starts (a multiple of 16)
  uint64_t live = vf_heap_live();
  { alignment::aligned_allocator a, c; T *p = a.alloc<T>(n, al); char *q = c.alloc<char>(24, 32); // a second allocator lives at the same time
  vf_assert(q != nullptr && (reinterpret_cast<uintptr_t>(q) & 31) == 0 && vf_readable(q, 24), "a second allocator provides aligned memory"); for (int i = 0; i < 24; i++) q[i] = (char)(i ^ 77);
  vf_assert(p != nullptr, "memory is provided"); vf_assert((reinterpret_cast<uintptr_t>(p) & (al - 1)) == 0, "the memory has the requested alignment");
  auto use = [&](uint64_t i) { return !large || i < 40 || i + 40 >= n * sizeof(T) || i % 4096 == 0; };
  vf_assert(vf_readable(p, n * sizeof(T)), "all of the memory belongs to the allocation");
  for (uint64_t i = 0; i < n * sizeof(T); i += 1 + (large && i >= 40 && i + 4200 < n * sizeof(T) ? 4055 : 0)) if (use(i)) reinterpret_cast<char *>(p)[i] = (char)i; // all of it can be used
  for (uint64_t i = 0; i < n * sizeof(T); i += 1 + (large && i >= 40 && i + 4200 < n * sizeof(T) ? 4055 : 0)) if (use(i)) vf_assert(reinterpret_cast<char *>(p)[i] == (char)i, "what is stored is kept"); bool kept = true; for (int i = 0; i < 24; i++) kept = kept & (q[i] == (char)(i ^ 77)); vf_assert(kept, "what is stored in the memory of the second allocator is kept"); }
  { alignment::aligned_allocator unused; }
  vf_assert(vf_heap_live() == live, "the memory is released when the allocator goes away");
  vf_reach(sizeof(T) == 1 ? 1 : sizeof(T) == 8 ? 2 : 3);
}
VF_MAIN {
  static const uint64_t T[] = {7, 16, 100, 255, 256, 1000, 4097, 70000}; uint64_t n = vf_param("LARGE", 0) ? T[vf_concretize(vf_u64("n", 0, 7))] : vf_concretize(vf_u64("n", vf_param("NMIN", 1), vf_param("NMAX", 6))), s = vf_u64("log2_alignment", 0, vf_param("AMAX", 8)), w = vf_concretize(vf_u64("type", 0, 2)); uint64_t al = 1ull << s;
  if (w == 0) go<char>(n, al); else if (w == 1) go<double>(n, al); else go<big>(n, al);
}
