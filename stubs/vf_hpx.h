// Stand-in for HPX: components on a number of localities, asynchronous actions, futures, continuations and
// the parallel algorithms. Every asynchronous piece of work is a task of its own with an identity for the
// race checker (ordered only by spawning, waiting and continuation edges); when tasks run is decided by a
// schedule chosen by the harness (vf_hpx::policy): 0 at once, 1 oldest first, 2 newest first, 3 any order.
#pragma once
#include "vf.h"
#include "vf_io.h"
#include <algorithm>
#include <cmath>
#include <chrono>
#include <functional>
#include <iterator>
#include <memory>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include "boost/program_options.hpp"
namespace vf_hpx {
template <int D> struct St { static uint64_t policy, localities; static uint32_t here; static uint32_t root; static uint64_t async_count, par_count, finalized, inited, used; /* bit mask of localities with components */ };
template <int D> uint64_t St<D>::policy = 0;
template <int D> uint64_t St<D>::localities = 1;
template <int D> uint32_t St<D>::here = 0;
template <int D> uint32_t St<D>::root = 0;
template <int D> uint64_t St<D>::async_count = 0;
template <int D> uint64_t St<D>::par_count = 0;
template <int D> uint64_t St<D>::finalized = 0;
template <int D> uint64_t St<D>::inited = 0;
template <int D> uint64_t St<D>::used = 0;
typedef St<0> S;

typedef vf_quiet quiet; typedef vf_loud loud;
template <class T> struct ptr { // reference-counted pointer of the stand-in
  struct box { long n = 1; void *p = nullptr; void (*del)(void *) = nullptr; };
  void *b = nullptr; T *p = nullptr;
  ptr() {} ptr(std::nullptr_t) {}
  template <class U> static void dl(void *q) { delete static_cast<U *>(q); }
  template <class U> explicit ptr(U *q) { quiet g; box *x = new box; x->p = q; x->del = &dl<U>; b = x; p = q; }
  ptr(const ptr &o) : b(o.b), p(o.p) { inc(); } ptr(ptr &&o) noexcept : b(o.b), p(o.p) { o.b = nullptr; o.p = nullptr; }
  template <class U> ptr(const ptr<U> &o) : b(o.b), p(o.p) { inc(); }
  ptr &operator=(const ptr &o) { ptr t(o); std::swap(b, t.b); std::swap(p, t.p); return *this; }
  ptr &operator=(ptr &&o) noexcept { ptr t(std::move(o)); std::swap(b, t.b); std::swap(p, t.p); return *this; }
  ~ptr() { if (!b) return; quiet g; box *x = static_cast<box *>(b); if (--x->n == 0) { x->del(x->p); delete x; } }
  void inc() { if (b) { quiet g; ++static_cast<box *>(b)->n; } }
  long count() const { quiet g; return b ? static_cast<box *>(b)->n : 0; }
  void reset() { ptr t; *this = t; }
  T *get() const { return p; } T *operator->() const { return p; } explicit operator bool() const { return p != nullptr; }
  friend bool operator==(const ptr &a, const ptr &c) { return a.p == c.p; }
};
template <class T, class... A> ptr<T> mk(A &&... a) { quiet g; return ptr<T>(new T(std::forward<A>(a)...)); }
struct task {
  bool done = false; uint64_t id = 0; uint32_t loc = 0; ptr<task> after; std::vector<ptr<task>> conts;
  virtual ~task() {}
  virtual void body() = 0;
};
typedef ptr<task> tp;
inline std::vector<tp> &ready() { static std::vector<tp> *r = new std::vector<tp>(); return *r; }
inline void run(tp t);
inline void make_ready(tp t) { quiet g; if (S::policy == 0) run(t); else ready().push_back(t); }
inline void run_body(void *p) { task *t = static_cast<task *>(p); if (t->after) vf_task_join(t->after->id); loud l; t->body(); }
inline void run(tp t) {
  quiet g; uint32_t h = S::here; S::here = t->loc;
  vf_task_run(t->id, &run_body, t.get());
  S::here = h; t->done = true;
  std::vector<tp> c; c.swap(t->conts); for (auto &x : c) make_ready(x);
}
inline bool step() {
  quiet g; auto &r = ready(); if (r.empty()) return false; size_t k = 0;
  if (S::policy == 2) k = r.size() - 1; else if (S::policy == 3) k = vf_concretize(vf_nondet_order("pick", r.size()));
  tp t = r[k]; r.erase(r.begin() + k); run(t); return true;
}
inline void wait(tp t) {
  quiet g;
  while (!t->done) if (!step()) { vf_assert(false, "every future that is waited for becomes ready"); return; }
  vf_task_join(t->id);
}
inline void spawn(tp t, uint32_t loc) { quiet g; vf_work(); S::async_count++; t->id = vf_task_fork(); t->loc = loc; make_ready(t); }
template <class T> struct slot { T v; slot() : v() {} template <class F> void set(F &f) { v = f(); } };
template <> struct slot<void> { template <class F> void set(F &f) { f(); } };
template <class R> struct rtask : task { slot<R> val; };
template <class R, class F> struct ftask : rtask<R> { F f; explicit ftask(F &&x) : f(std::move(x)) {} void body() override { this->val.set(f); } };
template <class R> struct valtask : rtask<R> { void body() override {} };
} // namespace vf_hpx

namespace hpx {
namespace naming { struct id_type { uint32_t loc = ~0u; vf_hpx::ptr<void> obj; bool is_loc = false; id_type() {} id_type(uint32_t l) : loc(l), is_loc(true) {} id_type(uint32_t l, vf_hpx::ptr<void> o) : loc(l), obj(o) {}
  friend bool operator==(const id_type &a, const id_type &b) { return a.loc == b.loc && a.obj == b.obj; } friend bool operator!=(const id_type &a, const id_type &b) { return !(a == b); } explicit operator bool() const { return is_loc || obj; } };
  inline uint32_t get_locality_id_from_id(const id_type &i) { return i.loc; }
  inline std::ostream &operator<<(std::ostream &o, const id_type &) { return o << "<id>"; } }
using naming::id_type;
inline id_type find_here() { return id_type(vf_hpx::S::here); }
inline id_type find_root_locality() { return id_type(vf_hpx::S::root); }
inline uint32_t get_locality_id() { return vf_hpx::S::here; }
inline std::vector<id_type> find_all_localities() { std::vector<id_type> v; for (uint32_t i = 0; i < vf_hpx::S::localities; i++) v.push_back(id_type(i)); return v; }
inline std::vector<id_type> find_remote_localities() { std::vector<id_type> v; for (uint32_t i = 0; i < vf_hpx::S::localities; i++) if (i != vf_hpx::S::here) v.push_back(id_type(i)); return v; }

template <class R> class future;
template <class R> struct fut_base {
  vf_hpx::ptr<vf_hpx::rtask<R>> t;
  bool valid() const { return (bool)t; } bool is_ready() const { return t && t->done; }
  void wait() const { vf_hpx::wait(t); }
  template <class F> auto then(F f);
};
template <class R> class future : public fut_base<R> { public: future() {} future(future &&) = default; future &operator=(future &&) = default; future(const future &) = delete; R get() { vf_assert((bool)this->t, "get() on a valid future"); vf_hpx::wait(this->t); auto k = std::move(this->t); return std::move(k->val.v); } };
template <> class future<void> : public fut_base<void> { public: future() {} future(future &&) = default; future &operator=(future &&) = default; future(const future &) = delete; void get() { vf_assert((bool)this->t, "get() on a valid future"); vf_hpx::wait(this->t); this->t.reset(); } };
template <class R> using unique_future = future<R>;
template <class R> future<R> make_ready_future(R v) { future<R> f; auto p = vf_hpx::mk<vf_hpx::valtask<R>>(); { vf_quiet g; p->val.v = std::move(v); p->done = true; p->id = 0; } f.t = p; return f; }
template <class R> template <class F> auto fut_base<R>::then(F f) {
  vf_assert((bool)t, "then() on a valid future"); auto src = std::move(t);
  auto call = [src, f]() mutable { future<R> x; x.t = src; return f(std::move(x)); };
  typedef decltype(call()) Q; auto p = vf_hpx::mk<vf_hpx::ftask<Q, decltype(call)>>(std::move(call));
  { vf_quiet g; vf_hpx::S::async_count++; p->id = vf_task_fork(); p->loc = vf_hpx::S::here; p->after = src; if (src->done) vf_hpx::make_ready(p); else src->conts.push_back(p); }
  future<Q> r; r.t = p; return r;
}
template <class R> void wait_all(std::vector<future<R>> &v) { for (auto &f : v) if (f.valid()) vf_hpx::wait(f.t); }
template <class R> void wait_all(future<R> &f) { if (f.valid()) vf_hpx::wait(f.t); }
template <class R, class... Q> void wait_all(future<R> &f, Q &... q) { wait_all(f); wait_all(q...); }
namespace lcos { using hpx::future; using hpx::wait_all; }
namespace util {
template <class F> struct unwrapper { F f; template <class R> auto operator()(future<R> x) { return f(x.get()); } auto operator()(future<void> x) { x.get(); return f(); } };
template <class F> unwrapper<typename std::decay<F>::type> unwrapped(F &&f) { return unwrapper<typename std::decay<F>::type>{std::forward<F>(f)}; }
template <class F> unwrapper<typename std::decay<F>::type> unwrapping(F &&f) { return unwrapper<typename std::decay<F>::type>{std::forward<F>(f)}; }
#ifdef VF_CLOCK
struct high_resolution_timer { double t; high_resolution_timer() : t(vf_now()) {} void restart() { t = vf_now(); } double elapsed() const { return vf_now() - t; } static double now() { return vf_now(); } };
#else
struct high_resolution_timer { void restart() {} double elapsed() const { return 0.5; } static double now() { return 0.5; } };
#endif
// a minimal iterator facade
struct iterator_core_access {
  template <class I> static void inc(I &i) { i.increment(); } template <class I> static bool eq(const I &a, const I &b) { return a.equal(b); } template <class I> static auto deref(const I &i) -> decltype(i.dereference()) { return i.dereference(); }
};
template <class D, class V, class C, class R = V &, class Diff = std::ptrdiff_t> struct iterator_facade {
  typedef V value_type; typedef C iterator_category; typedef R reference; typedef Diff difference_type; typedef typename std::remove_reference<R>::type *pointer;
  D &self() { return static_cast<D &>(*this); } const D &self() const { return static_cast<const D &>(*this); }
  R operator*() const { return iterator_core_access::deref(self()); }
  D &operator++() { iterator_core_access::inc(self()); return self(); } D operator++(int) { D t(self()); iterator_core_access::inc(self()); return t; }
  friend bool operator==(const D &a, const D &b) { return iterator_core_access::eq(a, b); } friend bool operator!=(const D &a, const D &b) { return !iterator_core_access::eq(a, b); }
};
}
inline future<uint32_t> get_num_localities() { return make_ready_future<uint32_t>((uint32_t)vf_hpx::S::localities); }

namespace components {
template <class T> struct component {}; 
template <class T> struct component_base { typedef T vf_component; };
struct vf_reg { std::string name; vf_hpx::ptr<void> obj; uint32_t loc; };
inline std::vector<vf_reg> &registry() { static std::vector<vf_reg> *r = new std::vector<vf_reg>(); return *r; }
template <class T> struct client {
  id_type id; client() {} explicit client(const id_type &i) : id(i) {}
  id_type get_id() const { vf_assert((bool)id.obj, "a component handle is used only after it refers to a component"); return id; }
  // a name can be taken again once nothing but the registration refers to the component registered under it
  bool register_as(std::string const &name, bool = true) {
    vf_assert((bool)id.obj, "only an existing component is registered"); vf_quiet g;
    for (auto &r : registry()) if (r.name == name) { if (r.obj.count() > 1 && !(r.obj == id.obj)) return false; r.obj = id.obj; r.loc = id.loc; return true; }
    registry().push_back(vf_reg{name, id.obj, id.loc}); return true;
  }
  void connect_to(std::string const &name) {
    vf_quiet g; for (auto &r : registry()) if (r.name == name) { id = id_type(r.loc, r.obj); return; }
    vf_assert(false, "a component that is looked up by name has been registered and still exists");
  }
};
}
struct default_distribution_policy { std::vector<id_type> ids; };
typedef default_distribution_policy container_distribution_policy;
inline default_distribution_policy default_layout(const std::vector<id_type> &v) { return default_distribution_policy{v}; }
template <class C> struct vf_new;
template <class T> struct vf_new<components::client<T>> {
  template <class... A> static components::client<T> mk(const id_type &loc, const A &... a) { vf_assert(loc.is_loc, "a component is created on a locality"); vf_assert(loc.loc < vf_hpx::S::localities, "a component is created on an existing locality"); vf_hpx::S::used |= 1ull << (loc.loc & 63); return components::client<T>(id_type(loc.loc, vf_hpx::ptr<T>(new T(typename std::decay<A>::type(a)...)))); }
};
template <class T> struct vf_new<components::client<T>[]> {
  template <class... A> static future<std::vector<components::client<T>>> mk(const default_distribution_policy &p, size_t n, const A &... a) {
    std::vector<components::client<T>> v; size_t m = p.ids.size(); vf_assert(m > 0, "components are distributed over at least one locality");
    // block distribution: the first n % m localities hold one component more
    for (size_t i = 0; i < m; i++) { size_t k = n / m + (i < n % m ? 1 : 0); for (size_t j = 0; j < k; j++) v.push_back(vf_new<components::client<T>>::mk(p.ids[i], a...)); }
    return make_ready_future(std::move(v)); }
};
template <class C, class... A> auto new_(A &&... a) { return vf_new<C>::mk(a...); }

template <class Act, class... A> auto async(const id_type &id, A &&... a) -> future<typename Act::template result<typename std::decay<A>::type...>> {
  typedef typename Act::component C; typedef typename Act::template result<typename std::decay<A>::type...> R;
  vf_assert((bool)id.obj, "an action is invoked on an existing component");
  vf_hpx::ptr<void> o = id.obj; auto args = std::make_tuple(typename std::decay<A>::type(a)...);
  auto call = [o, args]() mutable -> R { return Act::apply(static_cast<C *>(o.get()), args, std::make_index_sequence<sizeof...(A)>()); };
  auto p = vf_hpx::mk<vf_hpx::ftask<R, decltype(call)>>(std::move(call)); future<R> f; f.t = p;
  vf_hpx::spawn(p, id.loc); return f;
}
template <class F, class... A, class = decltype(std::declval<F>()(std::declval<A>()...))> auto async(F f, A... a) -> future<decltype(f(a...))> {
  typedef decltype(f(a...)) R; auto call = [f, a...]() mutable -> R { return f(a...); };
  auto p = vf_hpx::mk<vf_hpx::ftask<R, decltype(call)>>(std::move(call)); future<R> r; r.t = p; vf_hpx::spawn(p, vf_hpx::S::here); return r;
}
namespace parallel {
struct seq_t {}; struct par_t {}; static const seq_t seq{}; static const par_t par{}; static const par_t par_unseq{};
typedef par_t parallel_execution_policy; typedef seq_t sequential_execution_policy;
template <class I, class N, class F> I for_each_n(seq_t, I it, N n, F f) { for (N i = 0; i < n; ++i) { f(*it); ++it; } return it; }
// one task per iteration; the tasks are ordered only after the call that starts them and before its return
template <class B> struct vf_iter { B *b; uint64_t i; static void go(void *p) { vf_iter *x = static_cast<vf_iter *>(p); vf_loud l; (*x->b)(x->i); } };
template <class B> void vf_par(uint64_t n, B b) {
  vf_quiet g; vf_work(); vf_hpx::S::par_count += n;
  std::vector<uint64_t> ids; for (uint64_t i = 0; i < n; i++) ids.push_back(vf_task_fork());
  std::vector<uint64_t> left; if (vf_hpx::S::policy == 3) for (uint64_t i = 0; i < n; i++) left.push_back(i);
  for (uint64_t k = 0; k < n; k++) { uint64_t i = k; if (vf_hpx::S::policy == 2) i = n - 1 - k; else if (vf_hpx::S::policy == 1) i = (k + n / 2) % n; else if (vf_hpx::S::policy == 3) { uint64_t q = vf_concretize(vf_nondet_order("iter", left.size())); i = left[q]; left.erase(left.begin() + q); }
    vf_iter<B> it{&b, i}; vf_task_run(ids[i], &vf_iter<B>::go, &it); }
  for (uint64_t i = 0; i < n; i++) vf_task_join(ids[i]);
}
template <class I, class N, class F> I for_each_n(par_t, I it, N n, F f) { std::vector<std::unique_ptr<I>> its; for (N i = 0; i < n; ++i) { its.emplace_back(new I(it)); ++it; } vf_par((uint64_t)n, [&](uint64_t i) { f(**its[i]); }); return it; }
template <class P, class I, class F> I for_each(P p, I a, I b, F f) { return for_each_n(p, a, std::distance(a, b), f); }
template <class N, class M, class F> void for_loop(seq_t, N a, M b, F f) { for (M i = a; i < b; ++i) f(i); }
template <class N, class M, class F> void for_loop(par_t, N a, M b, F f) { if ((M)a < b) vf_par((uint64_t)(b - (M)a), [&](uint64_t i) { f((M)((M)a + i)); }); }
template <class N, class M, class F> void for_loop(N a, M b, F f) { for_loop(seq, a, b, f); }
namespace execution { using parallel::par; using parallel::seq; }
}
namespace execution { using parallel::par; using parallel::seq; }
using parallel::for_each_n; using parallel::for_loop; using parallel::for_each;

static std::ostream &cout = std::vf_stream<2>::s;
static std::ostream &cerr = std::vf_stream<3>::s;
inline std::ostream &flush(std::ostream &o) { return o; }
inline std::ostream &endl(std::ostream &o) { return std::endl(o); }
inline int finalize() { vf_hpx::S::finalized++; return 0; }
}
int hpx_main(boost::program_options::variables_map &vm);
namespace hpx {
template <class = void> int vf_init(const boost::program_options::options_description &d) { vf_hpx::S::inited++; if (vf_hpx::S::here != vf_hpx::S::root) return 0; auto vm = boost::program_options::vf_parse(d); int r = ::hpx_main(vm); vf_assert(vf_hpx::S::finalized == 1, "the runtime is shut down exactly once"); return r; }
template <class D> int init(const D &d, int, char **) { return vf_init<>(d); }
}
namespace vf_hpx {
template <class C, class M> struct act;
template <class C, class R, class... P> struct act<C, R (C::*)(P...)> { typedef R ret; };
template <class C, class R, class... P> struct act<C, R (C::*)(P...) const> { typedef R ret; };
}
#define HPX_DEFINE_COMPONENT_ACTION(C_, f_, name_) \
  struct name_ { typedef C_ component; template <class... A> using result = typename ::vf_hpx::act<C_, decltype(&C_::f_)>::ret; \
    template <class T, size_t... I> static auto apply(C_ *c, T &t, std::index_sequence<I...>) { return c->f_(std::get<I>(t)...); } }
#define HPX_DEFINE_COMPONENT_DIRECT_ACTION HPX_DEFINE_COMPONENT_ACTION
#define HPX_REGISTER_ACTION_DECLARATION(...) static_assert(true, "")
#define HPX_REGISTER_ACTION(...) static_assert(true, "")
#define HPX_REGISTER_COMPONENT(...) static_assert(true, "")
#define HPX_REGISTER_COMPONENT_MODULE(...) static_assert(true, "")
