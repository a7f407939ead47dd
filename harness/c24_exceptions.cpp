// Both exceptions carry their message, through copies and when caught as std::exception.
#include "common.h"
#include "util/matrix_multiplication_exception.hpp"
#include "memory_layout/memory_layout_exception.hpp"
template <class E> static void go(uint64_t n, const char *prefix) {
  const uint64_t every = vf_param("EVERY", 1); std::string msg; for (uint64_t i = 0; i < n; i++) if (every == 1 || i % every == every / 2 || i + 1 == n) msg += (char)vf_u64(("c" + std::to_string(i)).c_str(), 1, 255); else msg += (char)('!' + i % 89);
  std::string want = std::string(prefix) + ": " + msg; bool caught = false;
  const E other(std::string("something else")); const std::string owant = std::string(prefix) + ": something else"; const bool assigned = vf_concretize(vf_u64("assigned", 0, 1)) != 0;
  try { E e(msg); msg.assign(msg.size() + 40, 'Z'); if (assigned) { E h(std::string("to be replaced")); h = e; throw h; } E f(e); throw f; } catch (const std::exception &x) { caught = true; const char *w = x.what(); vf_assert(w != nullptr, "a message is given"); const char *w3 = other.what(); bool same = true; for (uint64_t i = 0; i <= owant.size(); i++) same = same & (w3[i] == owant.c_str()[i]); vf_assert(same, "another exception keeps its own message"); bool ok = true; for (uint64_t i = 0; i <= want.size(); i++) ok = ok & (w[i] == want.c_str()[i]); vf_assert(ok, "the message is the name of the exception and the text given"); const char *w2 = x.what(); vf_assert(w2[0] == prefix[0], "the message can be read again"); }
  vf_assert(caught, "it is a std::exception"); vf_reach(prefix[1] == 'a' ? 0 : 1);
}
VF_MAIN { static const uint64_t T[] = {31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000}; uint64_t n = vf_param("LONG", 0) ? T[vf_concretize(vf_u64("length", 0, 24))] : vf_concretize(vf_u64("length", 0, vf_param("LMAX", 24))); if (vf_concretize(vf_u64("which", 0, 1))) go<memory_layout::memory_layout_exception>(n, "memory_layout_exception"); else go<util::matrix_multiplication_exception>(n, "matrix_multiplication_exception"); }
