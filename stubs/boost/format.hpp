#pragma once
#include "vf_io.h"
namespace boost {
struct format { std::string s; std::vector<double> v; explicit format(const char *f) : s(f) {} explicit format(const std::string &f) : s(f) {} template <class T> format &operator%(const T &x) { v.push_back((double)x); return *this; } };
inline std::ostream &operator<<(std::ostream &o, const format &f) { o << f.s; for (double d : f.v) o << d; return o; }
}
