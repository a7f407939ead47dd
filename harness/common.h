#pragma once
#include "vf.h"
#include <vector>
#include <algorithm>
#include <array>
#include <string>
#include <memory>
#include <cmath>
#include <functional>
#include <numeric>
#include <tuple>
#include <utility>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <iostream>
#include <iomanip>
#include <sstream>
#include <chrono>
// Input matrices of arbitrary bounded multiples of 1/4. "sparse": only the elements selected by a stride pattern are
// arbitrary, the others are concrete, pairwise different integers (used where the block sizes force large N).
inline double vf_concrete(uint64_t i, uint64_t salt) { return (double)((i * 37 + salt * 101 + (i * i) % 89) % 241) - 120.0; }
// Factors of products: some elements need more than 24 bits (WIDE), their partners in the product fewer.
static const double WIDE = 8388608, NARROW = 65536, DATA = 1099511627776.0;
inline uint64_t vf_isqrt(uint64_t n) { uint64_t r = 0; while ((r + 1) * (r + 1) <= n) r++; return r; }
inline std::vector<double> vf_matrix(uint64_t n, const char *name) { std::vector<double> v(n); vf_fill_factor(v.data(), vf_isqrt(n), name, name[0] == 'B', WIDE, NARROW); return v; }
// C (n x n) = A * B with B row-major (tr = 0) or transposed (tr = 1)
inline void vf_check_product(const std::vector<double> &C, const std::vector<double> &A, const std::vector<double> &B, uint64_t n, bool tr, const char *msg) {
  vf_assert(C.size() == n * n, "the result has N*N elements"); if (C.size() != n * n) return;
  for (uint64_t i = 0; i < n; i++) for (uint64_t j = 0; j < n; j++) vf_eqdot(C[i * n + j], A.data() + i * n, 1, tr ? B.data() + j * n : B.data() + j, tr ? 1 : n, n, msg, i * n + j);
}
inline void vf_check_same(const std::vector<double> &a, const std::vector<double> &b, const char *msg) {
  vf_assert(a.size() == b.size(), msg); if (a.size() != b.size()) return; for (uint64_t i = 0; i < a.size(); i++) vf_eqf(a[i], b[i], msg, i);
}
// Large matrices: element e is arbitrary if (e * mul + add) % mod == 0, otherwise a concrete small integer.
inline std::vector<double> vf_sparse(uint64_t n, const char *name, uint64_t salt, uint64_t every) {
  std::vector<double> v(n); uint64_t cnt = 0;
  for (uint64_t e = 0; e < n; e++) v[e] = vf_concrete(e, salt);
  const uint64_t m = vf_isqrt(n); const bool right = name[0] == 'B';
  if (every) for (uint64_t e = salt % every; e < n; e += every) { vf_fill(&v[e], 1, (std::string(name) + std::to_string(e)).c_str(), (right ? (e / m) % 2 && (e % m) % 2 : (e % m) % 2 == 0) ? WIDE : NARROW); cnt++; }
  return v;
}

// A matrix size: NMIN..NMAX, or (parameters IMIN..IMAX) one of a table of larger sizes around powers of two and others.
inline uint64_t vf_size(uint64_t dflt, uint64_t lo = 0) {
  static const uint64_t T[] = {8, 9, 10, 12, 15, 16, 17, 20, 24, 31, 32, 33, 40, 48, 50, 63, 64, 65, 96, 100, 127, 128, 129, 130, 255, 256, 257, 258};
  if (vf_param("IMAX", 0)) return T[vf_concretize(vf_u64("size", vf_param("IMIN", 0), vf_param("IMAX", 0)))];
  return vf_concretize(vf_u64("N", vf_param("NMIN", lo), vf_param("NMAX", dflt)));
}
inline std::vector<double> vf_input(uint64_t n, const char *name, uint64_t salt) { uint64_t e = vf_param("EVERY", 1); return e == 1 ? vf_matrix(n, name) : vf_sparse(n, name, salt, e); }
// Data of arrays: all elements arbitrary, or (parameter EVERY) only some and the others pairwise different
template <class V> inline void vf_data(V &v, const char *name) {
  uint64_t every = vf_param("EVERY", 1); if (every == 1) { vf_fill(v.data(), v.size(), name, DATA); return; }
  for (uint64_t e = 0; e < v.size(); e++) v[e] = (double)e + 1073741824.25;
  for (uint64_t e = every / 2; e < v.size(); e += every) vf_fill(&v[e], 1, (std::string(name) + std::to_string(e)).c_str(), DATA);
}
// A block size 1..BMAX, or (parameter BTAB) one of a table
inline uint64_t vf_block(const char *name, uint64_t N) {
  if (!vf_param("BTAB", 0)) return vf_concretize(vf_u64(name, 1, vf_param("BMAX", 6)));
  const uint64_t T[] = {1, 3, 4, 8, 15, 16, N, N + 1}; return T[vf_concretize(vf_u64(name, 0, 7))];
}

// Harness of an algorithm that is an object: vf_prepare() makes the operands and the object, what it returns runs it and
// checks the result. Parameter TWO: two objects exist at the same time and one of them is run twice.
struct vf_operands { uint64_t N; std::vector<double> A, B, A0, B0; vf_operands(uint64_t n, std::vector<double> a, std::vector<double> b) : N(n), A(a), B(b), A0(a), B0(b) {}
  void check(const std::vector<double> &C, bool tr) const { vf_check_product(C, A0, B0, N, tr, "C[i][j] = sum_k A[i][k]*B[k][j]"); vf_check_same(A, A0, "A unchanged"); vf_check_same(B, B0, "B unchanged"); } };
inline std::shared_ptr<vf_operands> vf_make_operands(uint64_t N) { return std::make_shared<vf_operands>(N, vf_input(N * N, "A", 1), vf_input(N * N, "B", 2)); }
#define VF_OBJECT static std::function<void()> vf_prepare(); extern "C" void vf_main() { \
  if (vf_param("TWO", 0)) { std::function<void()> f = vf_prepare(), g = vf_prepare(); g(); f(); f(); } else for (uint64_t c = vf_param("CALLS", 1); c > 0; c--) vf_prepare()(); } \
  static std::function<void()> vf_prepare()
