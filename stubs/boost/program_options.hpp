// Stand-in for boost::program_options: options with types and defaults; the harness plays the command line.
#pragma once
#include "vf_io.h"
#include "vf.h"
#include <string>
#include <vector>
#include <cstdint>
namespace boost { namespace program_options {
struct vf_value { int kind = 0; /* 1 uint64 2 bool 3 double 4 string */ uint64_t u = 0; double d = 0; std::string s; bool has = false; };
template <class T> struct vf_kind; 
template <> struct vf_kind<unsigned long> { enum { k = 1 }; static void set(vf_value &v, unsigned long x) { v.u = x; } static unsigned long get(const vf_value &v) { return v.u; } };
template <> struct vf_kind<unsigned long long> { enum { k = 1 }; static void set(vf_value &v, unsigned long long x) { v.u = x; } static unsigned long long get(const vf_value &v) { return v.u; } };
template <> struct vf_kind<unsigned> { enum { k = 5 }; static void set(vf_value &v, unsigned x) { v.u = x; } static unsigned get(const vf_value &v) { return v.u; } };
template <> struct vf_kind<int> { enum { k = 6 }; static void set(vf_value &v, int x) { v.u = x; } static int get(const vf_value &v) { return (int)v.u; } };
template <> struct vf_kind<bool> { enum { k = 2 }; static void set(vf_value &v, bool x) { v.u = x; } static bool get(const vf_value &v) { return v.u != 0; } };
template <> struct vf_kind<double> { enum { k = 3 }; static void set(vf_value &v, double x) { v.d = x; } static double get(const vf_value &v) { return v.d; } };
template <> struct vf_kind<std::string> { enum { k = 4 }; static void set(vf_value &v, const std::string &x) { v.s = x; } static std::string get(const vf_value &v) { return v.s; } };
struct value_semantic { vf_value v; };
template <class T> struct typed_value : value_semantic { typed_value() { v.kind = vf_kind<T>::k; } template <class U> typed_value *default_value(const U &x) { vf_kind<T>::set(v, T(x)); v.has = true; return this; } };
template <class T> typed_value<T> *value() { return new typed_value<T>(); }
template <class T> typed_value<T> *value(T *) { return new typed_value<T>(); }
struct vf_opt { std::string name; vf_value v; bool flag; };
struct options_description;
struct options_description_easy_init { options_description *d; inline options_description_easy_init &operator()(const char *n, const value_semantic *s, const char * = ""); inline options_description_easy_init &operator()(const char *n, const char * = ""); };
struct options_description { std::vector<vf_opt> opts; std::string caption; options_description() {} explicit options_description(const std::string &c) : caption(c) {} options_description_easy_init add_options() { return options_description_easy_init{this}; } options_description &add(const options_description &o) { for (auto &x : o.opts) opts.push_back(x); return *this; } };
inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const value_semantic *s, const char *) { d->opts.push_back(vf_opt{n, s->v, false}); delete s; return *this; }
inline options_description_easy_init &options_description_easy_init::operator()(const char *n, const char *) { d->opts.push_back(vf_opt{n, vf_value(), true}); return *this; }
inline std::ostream &operator<<(std::ostream &o, const options_description &d) { o << "<options>" << d.caption; return o; }
struct variable_value { const vf_value *v; template <class T> T as() const { vf_assert(v != nullptr && v->has && v->kind == (int)vf_kind<T>::k, "an option is read with the type it was declared with"); return vf_kind<T>::get(*v); } bool empty() const { return !v || !v->has; } };
struct variables_map {
  std::vector<vf_opt> o;
  const vf_opt *find_opt(const std::string &n) const { for (auto &x : o) if (x.name == n) return &x; return nullptr; }
  variable_value operator[](const std::string &n) const { const vf_opt *p = find_opt(n); return variable_value{p ? &p->v : nullptr}; }
  size_t count(const std::string &n) const { const vf_opt *p = find_opt(n); return p && p->v.has ? 1 : 0; }
};
// the command line, as given by the harness
struct vf_cmd { static std::vector<vf_opt> &args() { static std::vector<vf_opt> *a = new std::vector<vf_opt>(); return *a; } 
  static void u(const char *n, uint64_t x) { vf_value v; v.u = x; v.has = true; args().push_back(vf_opt{n, v, false}); } static void d(const char *n, double x) { vf_value v; v.d = x; v.has = true; args().push_back(vf_opt{n, v, false}); } static void s(const char *n, const char *x) { vf_value v; v.s = x; v.has = true; args().push_back(vf_opt{n, v, false}); } };
inline variables_map vf_parse(const options_description &d) { variables_map m; m.o = d.opts; for (auto &a : vf_cmd::args()) { bool ok = false; for (auto &x : m.o) if (x.name == a.name) { int k = x.v.kind; x.v = a.v; x.v.kind = k; x.v.has = true; ok = true; } vf_assert(ok, "the application knows the documented option"); } return m; }
}}
