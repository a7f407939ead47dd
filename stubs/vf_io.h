// Recording stand-in for the standard streams: every insertion becomes an event (stream, text or number).
// Adjacent text is merged, so "a" "b" and "ab" are the same output.
#pragma once
#include "vf.h"
#include <iosfwd>
#include <string>
#include <vector>
#include <cstdint>
#include <cstddef>
namespace vf_io {
struct Ev { int stream; int kind; /* 0 text, 1 integer, 2 floating point */ std::string s; uint64_t u; double f; };
template <int D> struct G { static std::vector<Ev> *log; static bool on; };
template <int D> std::vector<Ev> *G<D>::log = nullptr;
template <int D> bool G<D>::on = false;
inline void record(bool b) { if (!G<0>::log) G<0>::log = new std::vector<Ev>(); G<0>::on = b; }
inline std::vector<Ev> &log() { return *G<0>::log; }
inline void text(int st, const char *p, size_t n) {
  if (!G<0>::on || n == 0) return; vf_quiet q;
  auto &l = log(); if (l.size() && l.back().stream == st && l.back().kind == 0) { l.back().s.append(p, n); return; }
  l.push_back(Ev{st, 0, std::string(p, n), 0, 0.0});
}
inline void num(int st, uint64_t v) { vf_quiet q; if (G<0>::on) log().push_back(Ev{st, 1, std::string(), v, 0.0}); }
inline void flt(int st, double v) { vf_quiet q; if (G<0>::on) log().push_back(Ev{st, 2, std::string(), 0, v}); }
inline size_t len(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
// what was written, numbers shown as '#'
inline std::string skeleton(int stream = -1) { std::string r; for (auto &e : log()) { if (stream >= 0 && e.stream != stream) continue; if (e.kind == 0) r += e.s; else r += '#'; } return r; }
inline bool contains(const char *what) { return skeleton().find(what) != std::string::npos; }
} // namespace vf_io
namespace std {
class ios_base_stub {};
template <> class basic_ostream<char, char_traits<char>> {
public:
  int id;
  bool str_on = false; std::string buf;
  typedef basic_ostream<char, char_traits<char>> self;
  explicit basic_ostream(int i) : id(i) {}
  void put_text(const char *p, size_t n) { if (str_on) buf.append(p, n); else vf_io::text(id, p, n); }
  void put_int(uint64_t v, bool neg) {
    if (!str_on) { vf_io::num(id, v); return; }
    char t[24]; int k = 24; uint64_t m = neg ? 0 - v : v; do { t[--k] = char('0' + m % 10); m /= 10; } while (m); if (neg) t[--k] = '-'; buf.append(t + k, 24 - k);
  }
  self &operator<<(const char *s) { put_text(s, vf_io::len(s)); return *this; }
  self &operator<<(char c) { put_text(&c, 1); return *this; }
  self &operator<<(bool v) { put_int(v, false); return *this; }
  self &operator<<(short v) { put_int((uint64_t)(int64_t)v, v < 0); return *this; }
  self &operator<<(unsigned short v) { put_int(v, false); return *this; }
  self &operator<<(int v) { put_int((uint64_t)(int64_t)v, v < 0); return *this; }
  self &operator<<(unsigned v) { put_int(v, false); return *this; }
  self &operator<<(long v) { put_int((uint64_t)v, v < 0); return *this; }
  self &operator<<(unsigned long v) { put_int(v, false); return *this; }
  self &operator<<(long long v) { put_int((uint64_t)v, v < 0); return *this; }
  self &operator<<(unsigned long long v) { put_int(v, false); return *this; }
  self &operator<<(double v) { if (str_on) buf += '#'; else vf_io::flt(id, v); return *this; }
  self &operator<<(float v) { return *this << (double)v; }
  self &operator<<(long double v) { return *this << (double)v; }
  self &operator<<(const void *) { put_text("0x", 2); return *this; }
  self &operator<<(self &(*f)(self &)) { return f(*this); }
  self &put(char c) { return *this << c; }
  self &write(const char *p, long n) { put_text(p, n); return *this; }
  self &flush() { return *this; }
  int precision(int) { return 6; }
  int precision() const { return 6; }
  int width(int) { return 0; }
  bool good() const { return true; }
  explicit operator bool() const { return true; }
};
inline ostream &operator<<(ostream &o, const string &s) { o.put_text(s.data(), s.size()); return o; }
inline ostream &operator<<(ostream &o, unsigned char c) { return o << (char)c; }
inline ostream &endl(ostream &o) { o.put_text("\n", 1); return o; }
inline ostream &flush(ostream &o) { return o; }
inline ostream &fixed(ostream &o) { return o; }
inline ostream &scientific(ostream &o) { return o; }
inline ostream &boolalpha(ostream &o) { return o; }
inline ostream &left(ostream &o) { return o; }
inline ostream &right(ostream &o) { return o; }
struct vf_manip {};
inline vf_manip setprecision(int) { return vf_manip(); }
inline vf_manip setw(int) { return vf_manip(); }
inline vf_manip setfill(char) { return vf_manip(); }
inline ostream &operator<<(ostream &o, vf_manip) { return o; }
template <int I> struct vf_stream { static ostream s; };
template <int I> ostream vf_stream<I>::s(I);
static ostream &cout = vf_stream<1>::s;
static ostream &cerr = vf_stream<3>::s;
static ostream &clog = vf_stream<4>::s;
template <> class basic_ostringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char, char_traits<char>> {
public: basic_ostringstream() : basic_ostream(9) { str_on = true; } string str() const { return buf; }
};
template <> class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_ostream<char, char_traits<char>> {
public: basic_stringstream() : basic_ostream(9) { str_on = true; } string str() const { return buf; }
};
} // namespace std
