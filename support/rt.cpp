// Definitions of functions that live in the binary C++ library, linked into the encoding where they are used: the
// standard exceptions with messages, the node handling of std::map/std::set (without rebalancing), hashing containers.
#include <stdexcept>
#include <string>
#include <map>
#include <unordered_map>
#include <new>
#include <cstring>
#include <cstdlib>
namespace std {
static const char *keep(const char *s, size_t n) { char *p = (char *)::operator new(n + 9); *(size_t *)p = 1; p += 8; memcpy(p, s, n); p[n] = 0; return p; }
static void drop(const char *p) { if (!p) return; size_t *c = (size_t *)(p - 8); if (!--*c) ::operator delete((void *)c); }
static const char *share(const char *p) { if (p) ++*(size_t *)(p - 8); return p; }
__cow_string::__cow_string() { _M_p = keep("", 0); }
__cow_string::__cow_string(const std::string &s) { _M_p = keep(s.data(), s.size()); }
__cow_string::__cow_string(const char *s, size_t n) { _M_p = keep(s, n); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = share(o._M_p); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { const char *p = share(o._M_p); drop(_M_p); _M_p = p; return *this; }
__cow_string::~__cow_string() { drop(_M_p); }
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; o._M_p = keep("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *p = _M_p; _M_p = o._M_p; o._M_p = p; return *this; }
#define BASE(E) E::E(const std::string &s) : _M_msg(s) {} E::E(const char *s) : _M_msg(s, strlen(s)) {} E::E(const E &o) noexcept : exception(), _M_msg(o._M_msg) {} E &E::operator=(const E &o) noexcept { _M_msg = o._M_msg; return *this; } \
  E::E(E &&o) noexcept : _M_msg(std::move(o._M_msg)) {} E &E::operator=(E &&o) noexcept { _M_msg = std::move(o._M_msg); return *this; } E::~E() noexcept {} const char *E::what() const noexcept { return _M_msg._M_p; }
BASE(logic_error) BASE(runtime_error)
#define DERIVED(E, B) E::E(const std::string &s) : B(s) {} E::E(const char *s) : B(s) {} E::~E() noexcept {}
DERIVED(domain_error, logic_error) DERIVED(invalid_argument, logic_error) DERIVED(length_error, logic_error) DERIVED(out_of_range, logic_error)
DERIVED(range_error, runtime_error) DERIVED(overflow_error, runtime_error) DERIVED(underflow_error, runtime_error)
// ---- ordered containers
typedef _Rb_tree_node_base N;
N *_Rb_tree_increment(N *x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } N *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const N *_Rb_tree_increment(const N *x) throw() { return _Rb_tree_increment(const_cast<N *>(x)); }
N *_Rb_tree_decrement(N *x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { N *y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } N *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const N *_Rb_tree_decrement(const N *x) throw() { return _Rb_tree_decrement(const_cast<N *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N *x, N *p, N &h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N *_Rb_tree_rebalance_for_erase(N *const z, N &h) throw() {
  N *nextl = z->_M_left, *nextr = z->_M_right, *x; N *const up = z->_M_parent; auto put = [&](N *n) { if (h._M_parent == z) h._M_parent = n; else if (up->_M_left == z) up->_M_left = n; else up->_M_right = n; if (n) n->_M_parent = up; };
  if (nextl && nextr) {
    N *y = nextr; while (y->_M_left) y = y->_M_left; x = y->_M_right;
    if (y != nextr) { y->_M_parent->_M_left = x; if (x) x->_M_parent = y->_M_parent; y->_M_right = nextr; nextr->_M_parent = y; }
    y->_M_left = nextl; nextl->_M_parent = y; put(y);
  } else {
    x = nextl ? nextl : nextr; put(x);
    if (h._M_left == z) { if (!x) h._M_left = up; else { while (x->_M_left) x = x->_M_left; h._M_left = x; } x = nextl ? nextl : nextr; }
    if (h._M_right == z) { if (!x) h._M_right = up; else { while (x->_M_right) x = x->_M_right; h._M_right = x; } }
  }
  return z;
}
// ---- hashing containers
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) seed = seed * 31 + c[i]; return seed; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = 2 * b + 1; _M_next_resize = (size_t)(b * (double)_M_max_load_factor); return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins <= _M_next_resize) return {false, 0};
  double need = (elt + ins) / (double)_M_max_load_factor; if (need >= bkt) { size_t w = (size_t)need + 1; return {true, _M_next_bkt(w > 2 * bkt ? w : 2 * bkt)}; }
  _M_next_resize = (size_t)(bkt * (double)_M_max_load_factor); return {false, 0};
}
}
}
void *operator new(size_t n, const std::nothrow_t &) noexcept { return ::operator new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return ::operator new[](n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { ::operator delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { ::operator delete[](p); }
extern "C" {
ldiv_t ldiv(long a, long b) noexcept { return {a / b, a % b}; }
lldiv_t lldiv(long long a, long long b) noexcept { return {a / b, a % b}; }
div_t div(int a, int b) noexcept { return {a / b, a % b}; }
}
