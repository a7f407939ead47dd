#include "expr.h"
std::vector<Node> N_;
std::vector<VarInfo> vars;
uint32_t pinEpoch = 0; bool dataPinned = false; Eval pinEval;
std::unordered_map<uint32_t, uint64_t> overrides;

// open-addressing hash-cons table
static std::vector<uint32_t> tab;
static size_t tabMask = 0;
static inline uint64_t hN(const Node &n) {
  uint64_t h = n.op * 0x9E3779B97F4A7C15ull + n.w * 0xC2B2AE3D27D4EB4Full;
  h ^= (uint64_t)n.a * 0x165667B19E3779F9ull; h = (h << 13) | (h >> 51);
  h ^= (uint64_t)n.b * 0xD6E8FEB86659FD93ull; h = (h << 17) | (h >> 47);
  h ^= (uint64_t)n.c * 0xA24BAED4963EE407ull; h *= 0x9FB21C651E98DF25ull;
  h ^= n.k; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
  return h;
}
static void rehash(size_t sz) {
  tab.assign(sz, 0); tabMask = sz - 1;
  for (uint32_t i = 1; i < N_.size(); i++) {
    size_t p = hN(N_[i]) & tabMask;
    while (tab[p]) p = (p + 1) & tabMask;
    tab[p] = i;
  }
}
uint32_t mkNode(Node n) {
  if (N_.empty()) { N_.push_back(Node{}); N_.reserve(1 << 16); rehash(1 << 17); }
  n.epoch = 0; n.pc = 0; n.pv = 0;
  size_t p = hN(n) & tabMask;
  while (tab[p]) {
    Node &m = N_[tab[p]];
    if (m.op == n.op && m.w == n.w && m.a == n.a && m.b == n.b && m.c == n.c && m.k == n.k) return tab[p];
    p = (p + 1) & tabMask;
  }
  uint32_t id = N_.size();
  N_.push_back(n);
  tab[p] = id;
  if (N_.size() * 2 > tab.size()) rehash(tab.size() * 2);
  return id;
}
static int dscale(double d, double &mx) {
  mx = std::fabs(d);
  if (d == 0 || !std::isfinite(d)) return 0;
  int e; double m = std::frexp(mx, &e); // mx = m*2^e, m in [.5,1)
  uint64_t mi = (uint64_t)std::ldexp(m, 53); int tz = __builtin_ctzll(mi);
  int sc = (53 - tz) - e; return sc < 0 ? 0 : sc;
}
uint32_t constNode(uint64_t v, unsigned w) { Node n{}; n.op = O_CONST; n.w = w; n.k = v & maskw(w); return mkNode(n); }
uint32_t fconstNode(uint64_t bits) {
  Node n{}; n.op = O_FCONST; n.w = WF; n.k = bits; n.scale = dscale(b2d(bits), n.mx); n.fl = FL_HASF;
  if (n.scale > 0) n.fl |= FL_NONINT;
  if (!std::isfinite(b2d(bits))) n.fl |= FL_TAINT;
  return mkNode(n);
}
uint32_t newVar(const std::string &name, uint64_t lo, uint64_t hi) {
  Node n{}; n.op = O_VAR; n.w = 64; n.k = vars.size();
  vars.push_back(VarInfo{name, false, lo, hi, 0, 0, false, 0, 0});
  uint32_t id = mkNode(n); vars.back().node = id; return id;
}
uint32_t newFVar(const std::string &name, double mx, int scale) {
  Node n{}; n.op = O_FVAR; n.w = WF; n.k = vars.size(); n.fl = FL_HASF | (scale ? FL_NONINT : 0); n.mx = mx; n.scale = scale;
  vars.push_back(VarInfo{name, true, 0, 0, mx, scale, false, 0, 0});
  uint32_t id = mkNode(n); vars.back().node = id; return id;
}
static uint64_t garbCtr = 0;
uint32_t newGarbage(unsigned w) { Node n{}; n.op = O_GARB; n.w = w; n.k = ++garbCtr; n.fl = FL_TAINT; return mkNode(n); }

static uint64_t foldBV(uint8_t op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t m = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & m; case O_SUB: return (a - b) & m; case O_MUL: return (a * b) & m;
  case O_UDIV: return b ? a / b : m; case O_UREM: return b ? a % b : a;
  case O_SDIV: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return x < 0 ? 1 : m; if (y == -1) return (0 - a) & m; return (uint64_t)(x / y) & m; }
  case O_SREM: { int64_t x = sx(a, w), y = sx(b, w); if (!y) return a; if (y == -1) return 0; return (uint64_t)(x % y) & m; }
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & m; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: return (uint64_t)(sx(a, w) >> (b >= w ? 63 : b)) & m;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b;
  case O_SLT: return sx(a, w) < sx(b, w); case O_SLE: return sx(a, w) <= sx(b, w);
  case O_UMULO: { unsigned __int128 r = (unsigned __int128)a * b; return (r >> w) != 0; }
  case O_UADDO: { unsigned __int128 r = (unsigned __int128)a + b; return (r >> w) != 0; }
  }
  return 0;
}
static inline bool isCmp(uint8_t op) { return op >= O_EQ && op <= O_UADDO; }

bool resolve(uint32_t s, uint64_t &out) {
  Node *n = &N_[s];
  if (n->op == O_CONST) { out = n->k; return true; }
  if (n->op == O_FCONST) { out = n->k; return true; }
  if (n->fl & FL_HASF) {
    if (dataPinned && !(n->fl & FL_TAINT)) { out = pinEval.ev(s); return true; }
    return false;
  }
  if (n->epoch == pinEpoch) { if (n->pc) { out = n->pv; return true; } return false; }
  bool ok = false; uint64_t r = 0, x, y;
  if (!overrides.empty()) { auto it = overrides.find(s); if (it != overrides.end()) { ok = true; r = it->second; } }
  if (!ok) switch (n->op) {
  case O_VAR: if (vars[n->k].pinned) { ok = true; r = vars[n->k].pin; } break;
  case O_GARB: break;
  case O_ITE: {
    uint32_t a = n->a, b = n->b, c = n->c;
    if (resolve(a, x)) { ok = resolve(x ? b : c, r); } break;
  }
  case O_ZEXT: ok = resolve(n->a, r); break;
  case O_SEXT: { uint32_t a = n->a; if (resolve(a, x)) { ok = true; r = (uint64_t)sx(x, N_[a].w) & maskw(N_[s].w); } break; }
  case O_EXTRACT: if (resolve(n->a, x)) { ok = true; r = (x >> N_[s].k) & maskw(N_[s].w); } break;
  case O_CONCAT: { uint32_t a = n->a, b = n->b; if (resolve(a, x) && resolve(b, y)) { ok = true; r = (x << N_[b].w) | y; } break; }
  case O_BITS: case O_UNBITS: break;
  default: {
    uint32_t a = n->a, b = n->b; unsigned w = N_[a].w; uint8_t op = n->op;
    if (resolve(a, x) && resolve(b, y)) { ok = true; r = foldBV(op, x, y, w); }
  }
  }
  n = &N_[s]; n->epoch = pinEpoch; n->pc = ok; n->pv = r; out = r; return ok;
}

static inline uint32_t nid(Val a, unsigned w) { return a.s ? a.s : constNode(a.v, w); }

Val toBV(Val a) {
  if (!a.s || !isFnode(a.s)) return a;
  Node &m = N_[a.s];
  if (m.op == O_UNBITS) return Val{0, m.a};
  if (m.op == O_FCONST) return cval(m.k);
  Node n{}; n.op = O_BITS; n.w = 64; n.a = a.s; n.fl = (m.fl & FL_TAINT) | FL_HASF; return Val{0, mkNode(n)};
}
Val toF(Val a) {
  if (!a.s || isFnode(a.s)) return a;
  Node &m = N_[a.s];
  if (m.op == O_BITS) return Val{0, m.a};
  if (m.op == O_CONST) return cval(m.k);
  Node n{}; n.op = O_UNBITS; n.w = WF; n.a = a.s; n.fl = (m.fl & FL_TAINT) | FL_HASF | FL_INEXACT | FL_NONINT; n.mx = 1e300; return Val{0, mkNode(n)};
}

// unsigned interval of a term (variables are constrained to their range on every path)
static std::unordered_map<uint32_t, std::pair<uint64_t, uint64_t>> rngMemo;
static std::pair<uint64_t, uint64_t> range(uint32_t s, int depth = 24) {
  Node n = N_[s]; if (n.op == O_CONST) return {n.k, n.k};
  std::pair<uint64_t, uint64_t> full{0, maskw(n.w)}; if (n.op == O_VAR) return {vars[n.k].lo, vars[n.k].hi};
  if ((n.fl & (FL_TAINT | FL_HASF)) || depth == 0) return full;
  auto it = rngMemo.find(s); if (it != rngMemo.end()) return it->second;
  auto r = full; uint64_t m = maskw(n.w);
  switch (n.op) {
  case O_ZEXT: r = range(n.a, depth - 1); break;
  case O_EXTRACT: { auto x = range(n.a, depth - 1); if (n.k == 0 && x.second <= m) r = x; break; }
  case O_ITE: { auto x = range(n.b, depth - 1), y = range(n.c, depth - 1); r = {std::min(x.first, y.first), std::max(x.second, y.second)}; break; }
  case O_ADD: { auto x = range(n.a, depth - 1), y = range(n.b, depth - 1);
    if (y.first == y.second && y.first > m / 2) { uint64_t d = (0 - y.first) & m; if (x.first >= d) r = {x.first - d, x.second - d}; } // minus a constant
    else if (x.second <= m - y.second) r = {x.first + y.first, x.second + y.second}; break; }
  case O_SUB: { auto x = range(n.a, depth - 1), y = range(n.b, depth - 1); if (x.first >= y.second) r = {x.first - y.second, x.second - y.first}; break; }
  case O_MUL: { auto x = range(n.a, depth - 1), y = range(n.b, depth - 1); if ((unsigned __int128)x.second * y.second <= m) r = {x.first * y.first, x.second * y.second}; break; }
  case O_UDIV: { auto x = range(n.a, depth - 1), y = range(n.b, depth - 1); if (y.first) r = {x.first / y.second, x.second / y.first}; break; }
  case O_UREM: { auto y = range(n.b, depth - 1); if (y.first) r = {0, y.second - 1}; break; }
  case O_AND: { auto x = range(n.a, depth - 1), y = range(n.b, depth - 1); r = {0, std::min(x.second, y.second)}; break; }
  case O_CONCAT: { auto x = range(n.a, depth - 1), y = range(n.b, depth - 1); unsigned wl = N_[n.b].w; r = {(x.first << wl) | y.first, (x.second << wl) | y.second}; break; }
  }
  if (depth == 24 || r != full) rngMemo[s] = r;
  return r;
}
Val mkRaw(uint8_t op, Val a, Val b, unsigned w) { // a comparison, not simplified (the range constraints themselves)
  Node n{}; n.op = op; n.w = 1; n.a = nid(a, w); n.b = nid(b, w); return Val{0, mkNode(n)};
}
struct Lin { uint64_t k = 0; unsigned n = 0, seen = 0; uint32_t at[8]; uint64_t co[8]; bool over = false; };
static void lin(Val v, uint64_t f, unsigned w, Lin &l, int depth) { // l += f * v
  if (!v.s) { l.k += f * v.v; return; } Node n = N_[v.s];
  if (depth && n.w == w) switch (n.op) {
  case O_CONST: l.k += f * n.k; return;
  case O_ADD: lin(Val{0, n.a}, f, w, l, depth - 1); lin(Val{0, n.b}, f, w, l, depth - 1); return;
  case O_SUB: lin(Val{0, n.a}, f, w, l, depth - 1); lin(Val{0, n.b}, 0 - f, w, l, depth - 1); return;
  case O_XOR: if (N_[n.b].op == O_CONST && N_[n.b].k == maskw(w)) { l.k -= f; lin(Val{0, n.a}, 0 - f, w, l, depth - 1); return; }
    if (N_[n.a].op == O_CONST && N_[n.a].k == maskw(w)) { l.k -= f; lin(Val{0, n.b}, 0 - f, w, l, depth - 1); return; } break;
  case O_MUL: if (N_[n.b].op == O_CONST) { lin(Val{0, n.a}, f * N_[n.b].k, w, l, depth - 1); return; } if (N_[n.a].op == O_CONST) { lin(Val{0, n.b}, f * N_[n.a].k, w, l, depth - 1); return; } break;
  }
  if (n.op == O_CONST) { l.k += f * n.k; return; }
  l.seen++;
  for (unsigned i = 0; i < l.n; i++) if (l.at[i] == v.s) { l.co[i] += f; return; }
  if (l.n == 8) { l.over = true; return; } l.at[l.n] = v.s; l.co[l.n++] = f;
}
static inline void splitK(Val a, uint32_t &base, uint64_t &k) { // a = base + k
  base = a.s; k = 0; if (!a.s) { k = a.v; return; } Node &n = N_[a.s];
  if (n.op == O_ADD && N_[n.b].op == O_CONST) { base = n.a; k = N_[n.b].k; } else if (n.op == O_ADD && N_[n.a].op == O_CONST) { base = n.b; k = N_[n.a].k; }
}
Val mkBin(uint8_t op, Val a, Val b, unsigned w) {
  a = rs(a); b = rs(b);
  if (!a.s && !b.s) return cval(foldBV(op, a.v, b.v, w));
  a = toBV(a); b = toBV(b);
  bool ta = tainted(a) || tainted(b);
  uint64_t m = maskw(w);
  if (!ta && w > 1 && (a.s || b.s)) {
    if (op == O_ADD || op == O_SUB || isCmp(op)) {
      uint32_t x, y; uint64_t i, j; splitK(a, x, i); splitK(b, y, j);
      if (a.s && b.s && op == O_SUB) {
        if (x == y) return cval((i - j) & m);
        if (i || j) return mkBin(O_ADD, mkBin(O_SUB, Val{0, x}, Val{0, y}, w), cval((i - j) & m), w);
        Node &p = N_[x]; if (p.op == O_ADD && p.a == y) return rs(Val{0, p.b}); if (p.op == O_ADD && p.b == y) return rs(Val{0, p.a});
        Node &q = N_[y]; if (q.op == O_SUB && q.a == x) return rs(Val{0, q.b});
      }
      if (a.s && b.s && op == O_ADD) {
        if (i || j) return mkBin(O_ADD, mkBin(O_ADD, Val{0, x}, Val{0, y}, w), cval((i + j) & m), w);
        Node &p = N_[x]; if (p.op == O_SUB && p.b == y) return rs(Val{0, p.a});
        Node &q = N_[y]; if (q.op == O_SUB && q.b == x) return rs(Val{0, q.a});
      }
      if (a.s && b.s && (op == O_SUB || op == O_ADD)) { // terms that cancel
        Lin l; lin(a, 1, w, l, 6); lin(b, op == O_ADD ? 1 : ~0ull, w, l, 6); unsigned live = 0; for (unsigned q = 0; q < l.n; q++) live += (l.co[q] & m) != 0;
        if (!l.over && live < l.n && live <= 1) {
          Val r = cval(0); for (unsigned q = 0; q < l.n; q++) if (l.co[q] & m) { Val t{0, l.at[q]}; uint64_t c = l.co[q] & m; r = c == m ? mkBin(O_SUB, cval(0), t, w) : mkBin(O_MUL, t, cval(c), w); }
          return mkBin(O_ADD, r, cval(l.k & m), w);
        }
      }
      if (a.s && b.s && op == O_EQ && x == y) return cval(i == j);
      if (a.s && !b.s && op == O_EQ && i) return mkBin(O_EQ, Val{0, x}, cval((b.v - i) & m), w);
      if (op == O_ULT || op == O_ULE || op == O_EQ) {
        auto ra = a.s ? range(a.s) : std::make_pair(a.v, a.v), rb = b.s ? range(b.s) : std::make_pair(b.v, b.v);
        if (op == O_EQ) { if (ra.second < rb.first || rb.second < ra.first) return cval(0); }
        else if (op == O_ULT) { if (ra.second < rb.first) return cval(1); if (ra.first >= rb.second) return cval(0); }
        else { if (ra.second <= rb.first) return cval(1); if (ra.first > rb.second) return cval(0); }
        if (op != O_EQ && a.s && b.s && x == y) { // same base, no wrap-around of either sum: compare the offsets
          auto rx = range(x); auto fits = [&](uint64_t k) { return k <= m / 2 ? rx.second <= m - k : rx.first >= ((0 - k) & m); };
          if (fits(i) && fits(j)) { int64_t si = sx(i, w), sj = sx(j, w); return cval(op == O_ULT ? si < sj : si <= sj); }
        }
      }
    }
  }
  switch (op) {
  case O_ADD: if (!a.s && !a.v) return b; if (!b.s && !b.v) return a;
    if (!a.s) std::swap(a, b);
    if (!b.s && N_[a.s].op == O_ADD && N_[N_[a.s].b].op == O_CONST) {
      uint64_t k = (N_[N_[a.s].b].k + b.v) & m; Val x{0, N_[a.s].a}; return mkBin(O_ADD, x, cval(k), w); }
    break;
  case O_SUB: if (!b.s && !b.v) return a; if (a.s && a.s == b.s && !ta) return cval(0);
    if (!b.s) return mkBin(O_ADD, a, cval((0 - b.v) & m), w); break;
  case O_MUL: if (!a.s) std::swap(a, b); if (!b.s) { if (b.v == 0 && !ta) return cval(0); if (b.v == 1) return a; } break;
  case O_UDIV: if (!b.s && b.v == 1) return a; break;
  case O_AND: if (!a.s) std::swap(a, b); if (!b.s) { if (b.v == 0) return cval(0); if (b.v == m) return a;
      // low mask -> extract/zext (keeps taint precise)
      if ((b.v & (b.v + 1)) == 0 && w <= 64) { unsigned nb = 64 - __builtin_clzll(b.v); if (nb < w) return mkZext(mkExtract(a, w, 0, nb), nb, w); } }
    if (a.s == b.s) return a; break;
  case O_OR: if (!a.s) std::swap(a, b); if (!b.s) { if (b.v == 0) return a; if (b.v == m) return cval(m); } if (a.s == b.s) return a; break;
  case O_XOR: if (!a.s) std::swap(a, b); if (!b.s && b.v == 0) return a; if (a.s == b.s && !ta) return cval(0);
    if (!b.s && w == 1 && b.v == 1 && N_[a.s].op == O_XOR && N_[N_[a.s].b].op == O_CONST) return Val{0, N_[a.s].a}; break;
  case O_SHL: case O_LSHR: case O_ASHR: if (!b.s && b.v == 0) return a;
    if (!b.s && op == O_LSHR && b.v < w) return mkZext(mkExtract(a, w, b.v, w - b.v), w - b.v, w);
    if (!b.s && op == O_SHL && b.v < w) return mkConcat(mkExtract(a, w, 0, w - b.v), w - b.v, cval(0), b.v);
    break;
  case O_EQ: if (a.s == b.s && !ta) return cval(1); if (w == 1) { if (!a.s) std::swap(a, b); if (!b.s) return b.v ? a : mkBin(O_XOR, a, cval(1), 1); } break;
  case O_ULT: case O_SLT: if (a.s == b.s && !ta) return cval(0); if (op == O_ULT && !b.s && b.v == 0) return cval(0); break;
  case O_ULE: case O_SLE: if (a.s == b.s && !ta) return cval(1); break;
  }
  Node n{}; n.op = op; n.w = isCmp(op) ? 1 : w; n.a = nid(a, w); n.b = nid(b, w);
  if ((op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ) && a.s && b.s && n.a > n.b) std::swap(n.a, n.b);
  n.fl = (N_[n.a].fl | N_[n.b].fl) & (FL_TAINT | FL_HASF);
  return Val{0, mkNode(n)};
}
Val mkIte(Val c, Val a, Val b, unsigned w, bool isF) {
  c = rs(c); if (!c.s) return c.v ? a : b;
  a = rs(a); b = rs(b);
  if (a.s == b.s && a.v == b.v) return a;
  if (isF || (a.s && isFnode(a.s)) || (b.s && isFnode(b.s))) {
    a = toF(a); b = toF(b);
    Node n{}; n.op = O_FITE; n.w = WF; n.a = c.s; n.b = a.s ? a.s : fconstNode(a.v); n.c = b.s ? b.s : fconstNode(b.v);
    n.fl = N_[n.a].fl | N_[n.b].fl | N_[n.c].fl | FL_HASF; n.mx = std::max(N_[n.b].mx, N_[n.c].mx); n.scale = std::max(N_[n.b].scale, N_[n.c].scale);
    return Val{0, mkNode(n)};
  }
  if (w == 1 && !a.s && !b.s) return a.v ? c : mkBin(O_XOR, c, cval(1), 1);
  Node n{}; n.op = O_ITE; n.w = w; n.a = c.s; n.b = nid(a, w); n.c = nid(b, w);
  n.fl = (N_[n.a].fl | N_[n.b].fl | N_[n.c].fl) & (FL_TAINT | FL_HASF);
  return Val{0, mkNode(n)};
}
Val mkZext(Val a, unsigned from, unsigned to) {
  a = rs(a); if (!a.s || from == to) return a; a = toBV(a);
  if (N_[a.s].op == O_ZEXT) { Val x{0, N_[a.s].a}; return mkZext(x, N_[x.s].w, to); }
  Node n{}; n.op = O_ZEXT; n.w = to; n.a = a.s; n.fl = N_[a.s].fl; return Val{0, mkNode(n)};
}
Val mkSext(Val a, unsigned from, unsigned to) {
  a = rs(a); if (!a.s) return cval((uint64_t)sx(a.v, from) & maskw(to)); if (from == to) return a; a = toBV(a);
  Node n{}; n.op = O_SEXT; n.w = to; n.a = a.s; n.fl = N_[a.s].fl; return Val{0, mkNode(n)};
}
Val mkExtract(Val a, unsigned from, unsigned lo, unsigned w) {
  a = rs(a); if (!a.s) return cval((a.v >> lo) & maskw(w));
  if (lo == 0 && w == from) return a;
  a = toBV(a);
  Node &m = N_[a.s];
  if (m.op == O_EXTRACT) { Val x{0, m.a}; return mkExtract(x, N_[m.a].w, lo + m.k, w); }
  if (m.op == O_CONCAT) {
    unsigned wl = N_[m.b].w, wh = N_[m.a].w; Val h{0, m.a}, l{0, m.b};
    if (N_[m.a].op == O_CONST) h = cval(N_[m.a].k);
    if (N_[m.b].op == O_CONST) l = cval(N_[m.b].k);
    if (lo + w <= wl) return mkExtract(l, wl, lo, w);
    if (lo >= wl) return mkExtract(h, wh, lo - wl, w);
    return mkConcat(mkExtract(h, wh, 0, lo + w - wl), lo + w - wl, mkExtract(l, wl, lo, wl - lo), wl - lo);
  }
  if (m.op == O_ZEXT) {
    unsigned wi = N_[m.a].w; Val x{0, m.a};
    if (lo >= wi) return cval(0);
    if (lo + w <= wi) return mkExtract(x, wi, lo, w);
    return mkZext(mkExtract(x, wi, lo, wi - lo), wi - lo, w);
  }
  if (m.op == O_AND || m.op == O_OR || m.op == O_XOR) { // bitwise with a constant: slice it (keeps definedness bit-precise)
    uint32_t x = m.a, k = m.b; uint8_t op = m.op; if (N_[x].op == O_CONST) std::swap(x, k);
    if (N_[k].op == O_CONST && N_[x].op != O_CONST) { uint64_t kv = (N_[k].k >> lo) & maskw(w); return mkBin(op, mkExtract(Val{0, x}, from, lo, w), cval(kv), w); }
  }
  if (m.op == O_SEXT && lo + w <= N_[m.a].w) { Val x{0, m.a}; return mkExtract(x, N_[m.a].w, lo, w); }
  Node n{}; n.op = O_EXTRACT; n.w = w; n.a = a.s; n.k = lo; n.fl = m.fl; return Val{0, mkNode(n)};
}
Val mkConcat(Val hi, unsigned whi, Val lo, unsigned wlo) {
  hi = rs(hi); lo = rs(lo);
  if (!hi.s && !lo.s) return cval((hi.v << wlo) | lo.v);
  if (!hi.s && hi.v == 0) return mkZext(lo, wlo, whi + wlo);
  hi = toBV(hi); lo = toBV(lo);
  // re-join adjacent extracts
  if (hi.s && lo.s && N_[hi.s].op == O_EXTRACT && N_[lo.s].op == O_EXTRACT && N_[hi.s].a == N_[lo.s].a && N_[hi.s].k == N_[lo.s].k + wlo) {
    Val x{0, N_[lo.s].a}; return mkExtract(x, N_[x.s].w, N_[lo.s].k, whi + wlo);
  }
  Node n{}; n.op = O_CONCAT; n.w = whi + wlo; n.a = nid(hi, whi); n.b = nid(lo, wlo); n.fl = (N_[n.a].fl | N_[n.b].fl);
  return Val{0, mkNode(n)};
}
static const double EXACT = 9007199254740992.0; // 2^53
Val mkF(uint8_t op, Val a, Val b) {
  a = rs(a); b = rs(b);
  if (!a.s && !b.s) {
    double x = b2d(a.v), y = b2d(b.v), r = 0;
    switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; case O_FNEG: r = -x; break; case O_FABS: r = std::fabs(x); break; }
    return cval(d2b(r));
  }
  a = toF(a); b = toF(b);
  bool ta = tainted(a) || tainted(b);
  if (op == O_FADD) { if (!a.s) std::swap(a, b); if (!b.s && b2d(b.v) == 0) return a; }
  if (op == O_FSUB) { if (!b.s && b2d(b.v) == 0) return a; if (!a.s && b2d(a.v) == 0) { op = O_FNEG; a = b; b = cval(0); } else if (a.s == b.s && !ta) return cval(0); }
  if (op == O_FMUL) { if (!a.s) std::swap(a, b); if (!b.s) { if (b2d(b.v) == 0 && !ta) return cval(0); if (b2d(b.v) == 1) return a; } }
  if (op == O_FDIV && !b.s && b2d(b.v) == 1) return a;
  Node n{}; n.op = op; n.w = WF; n.a = a.s ? a.s : fconstNode(a.v);
  if (op == O_FNEG || op == O_FABS) n.b = 0; else n.b = b.s ? b.s : fconstNode(b.v);
  Node &x = N_[n.a], &y = N_[n.b];
  n.fl = x.fl | (n.b ? y.fl : 0) | FL_HASF;
  switch (op) {
  case O_FADD: case O_FSUB: n.mx = x.mx + y.mx; n.scale = std::max(x.scale, y.scale); break;
  case O_FMUL: n.mx = x.mx * y.mx; n.scale = x.scale + y.scale; break;
  case O_FDIV: n.mx = 1e300; n.scale = 0; n.fl |= FL_INEXACT | FL_NONINT; break;
  default: n.mx = x.mx; n.scale = x.scale;
  }
  if (n.scale > 0) n.fl |= FL_NONINT;
  if (n.mx * std::ldexp(1.0, n.scale) > EXACT) n.fl |= FL_INEXACT;
  if ((op == O_FADD || op == O_FMUL) && a.s && b.s && n.a > n.b) std::swap(n.a, n.b);
  return Val{0, mkNode(n)};
}
Val mkFcmp(uint8_t op, Val a, Val b) {
  a = toF(rs(a)); b = toF(rs(b));
  if (!a.s && !b.s) { double x = b2d(a.v), y = b2d(b.v); return cval(op == O_FEQ ? x == y : op == O_FLT ? x < y : x <= y); }
  if (a.s == b.s && !tainted(a)) return cval(op != O_FLT);
  Node n{}; n.op = op; n.w = 1; n.a = a.s ? a.s : fconstNode(a.v); n.b = b.s ? b.s : fconstNode(b.v);
  n.fl = N_[n.a].fl | N_[n.b].fl | FL_HASF;
  return Val{0, mkNode(n)};
}
Val mkI2F(Val a, unsigned w) {
  a = rs(a); if (!a.s) return cval(d2b((double)a.v));
  Node n{}; n.op = O_I2F; n.w = WF; n.a = a.s; n.fl = (N_[a.s].fl & FL_TAINT) | FL_HASF; n.mx = std::ldexp(1.0, w); n.scale = 0;
  return Val{0, mkNode(n)};
}
void leaves(uint32_t s, std::vector<uint32_t> &out) {
  std::vector<uint32_t> st{s}; std::unordered_map<uint32_t, bool> seen;
  while (!st.empty()) {
    uint32_t x = st.back(); st.pop_back(); if (!x || seen[x]) continue; seen[x] = true;
    Node &n = N_[x];
    if (n.op == O_VAR || n.op == O_FVAR) { out.push_back(n.k); continue; }
    if (n.op == O_CONST || n.op == O_FCONST || n.op == O_GARB) continue;
    st.push_back(n.a); if (n.b) st.push_back(n.b); if (n.c) st.push_back(n.c);
  }
}
uint64_t Eval::ev(uint32_t s) {
  // iterative post-order for deep chains
  std::vector<uint32_t> st{s};
  while (!st.empty()) {
    uint32_t x = st.back();
    if (memo.count(x)) { st.pop_back(); continue; }
    Node &n = N_[x]; bool ready = true;
    if (n.op != O_CONST && n.op != O_FCONST && n.op != O_VAR && n.op != O_FVAR && n.op != O_GARB)
      for (uint32_t ch : {n.a, n.b, n.c}) if (ch && !memo.count(ch)) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back(); uint64_t r = 0;
    auto F = [&](uint32_t y) { return b2d(memo[y]); };
    switch (n.op) {
    case O_CONST: case O_FCONST: r = n.k; break;
    case O_VAR: r = n.k < bv.size() ? bv[n.k] : 0; break;
    case O_FVAR: r = d2b(n.k < fv.size() ? fv[n.k] : 0.0); break;
    case O_GARB: r = 0xA5A5A5A5A5A5A5A5ull & maskw(n.w); break;
    case O_ITE: case O_FITE: r = memo[n.a] ? memo[n.b] : memo[n.c]; break;
    case O_ZEXT: r = memo[n.a]; break;
    case O_SEXT: r = (uint64_t)sx(memo[n.a], N_[n.a].w) & maskw(n.w); break;
    case O_EXTRACT: r = (memo[n.a] >> n.k) & maskw(n.w); break;
    case O_CONCAT: r = (memo[n.a] << N_[n.b].w) | memo[n.b]; break;
    case O_BITS: case O_UNBITS: r = memo[n.a]; break;
    case O_FADD: r = d2b(F(n.a) + F(n.b)); break; case O_FSUB: r = d2b(F(n.a) - F(n.b)); break;
    case O_FMUL: r = d2b(F(n.a) * F(n.b)); break; case O_FDIV: r = d2b(F(n.a) / F(n.b)); break;
    case O_FNEG: r = d2b(-F(n.a)); break; case O_FABS: r = d2b(std::fabs(F(n.a))); break;
    case O_FEQ: r = F(n.a) == F(n.b); break; case O_FLT: r = F(n.a) < F(n.b); break; case O_FLE: r = F(n.a) <= F(n.b); break;
    case O_I2F: r = d2b((double)memo[n.a]); break;
    default: r = foldBV(n.op, memo[n.a], memo[n.b], N_[n.a].w);
    }
    memo[x] = r;
  }
  return memo[s];
}

// ---------------------------------------------------------------- z3
Z3_context zc;
static std::unordered_map<uint32_t, Z3_ast> cBV, cBool, cInt, cReal;
static Z3_sort sBV(unsigned w) { static Z3_sort t[65]; if (!t[w]) t[w] = Z3_mk_bv_sort(zc, w); return t[w]; }
Z3_ast zBVv(Val v, unsigned w) { return v.s ? zBV(v.s, w) : Z3_mk_unsigned_int64(zc, v.v, sBV(w)); }
Z3_ast zBoolV(Val v) { return v.s ? zBool(v.s) : (v.v ? Z3_mk_true(zc) : Z3_mk_false(zc)); }
static Z3_ast zFn(uint32_t s, bool real);
static Z3_ast zConstF(double d, bool real);
// quotients at the top of a comparison are compared by cross-multiplication, so that the solver sees no division
struct Rat { Z3_ast num, den; }; // den 0: one
static Z3_ast zMul(Z3_ast a, Z3_ast b) { if (!a) return b; if (!b) return a; Z3_ast x[2] = {a, b}; return Z3_simplify(zc, Z3_mk_mul(zc, 2, x)); }
static bool hasDiv(uint32_t s) { const Node &n = N_[s]; return n.op == O_FDIV || (n.op == O_FMUL && (hasDiv(n.a) || hasDiv(n.b))) || (n.op == O_FNEG && hasDiv(n.a)); }
static Rat rat(uint32_t s) {
  const Node n = N_[s]; if (!hasDiv(s)) return Rat{zFn(s, true), nullptr};
  Rat a = rat(n.a); if (n.op == O_FNEG) return Rat{zMul(zConstF(-1, true), a.num), a.den};
  Rat b = rat(n.b); if (n.op == O_FMUL) return Rat{zMul(a.num, b.num), zMul(a.den, b.den)};
  return Rat{zMul(a.num, b.den), zMul(a.den, b.num)};
}
static Z3_ast zRatCmp(uint8_t op, uint32_t x, uint32_t y) {
  Rat a = rat(x), b = rat(y); Z3_ast l = zMul(a.num, b.den), r = zMul(b.num, a.den), d = zMul(a.den, b.den), z = zConstF(0, true);
  auto cmp = [&](Z3_ast p, Z3_ast q) { return op == O_FEQ ? Z3_mk_eq(zc, p, q) : op == O_FLT ? Z3_mk_lt(zc, p, q) : Z3_mk_le(zc, p, q); };
  if (!d) return cmp(l, r);
  Z3_ast pos[2] = {Z3_mk_lt(zc, z, d), cmp(l, r)}, neg[2] = {Z3_mk_lt(zc, d, z), cmp(r, l)}, both[2] = {Z3_mk_and(zc, 2, pos), Z3_mk_and(zc, 2, neg)}; return Z3_mk_or(zc, 2, both);
}
Z3_ast zBool(uint32_t s) {
  auto it = cBool.find(s); if (it != cBool.end()) return it->second;
  Node n = N_[s]; Z3_ast r;
  switch (n.op) {
  case O_CONST: r = n.k ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
  case O_EQ: if (N_[n.a].w == 1) { r = Z3_mk_iff(zc, zBool(n.a), zBool(n.b)); } else r = Z3_mk_eq(zc, zBV(n.a, 0), zBV(n.b, 0)); break;
  case O_ULT: r = Z3_mk_bvult(zc, zBV(n.a, 0), zBV(n.b, 0)); break;
  case O_ULE: r = Z3_mk_bvule(zc, zBV(n.a, 0), zBV(n.b, 0)); break;
  case O_SLT: r = Z3_mk_bvslt(zc, zBV(n.a, 0), zBV(n.b, 0)); break;
  case O_SLE: r = Z3_mk_bvsle(zc, zBV(n.a, 0), zBV(n.b, 0)); break;
  case O_UMULO: { unsigned w = N_[n.a].w; Z3_ast p = Z3_mk_bvmul(zc, Z3_mk_zero_ext(zc, w, zBV(n.a, 0)), Z3_mk_zero_ext(zc, w, zBV(n.b, 0)));
    r = Z3_mk_not(zc, Z3_mk_eq(zc, Z3_mk_extract(zc, 2 * w - 1, w, p), Z3_mk_unsigned_int64(zc, 0, sBV(w)))); break; }
  case O_UADDO: { r = Z3_mk_bvult(zc, Z3_mk_bvadd(zc, zBV(n.a, 0), zBV(n.b, 0)), zBV(n.a, 0)); break; }
  case O_AND: { Z3_ast x[2] = {zBool(n.a), zBool(n.b)}; r = Z3_mk_and(zc, 2, x); break; }
  case O_OR: { Z3_ast x[2] = {zBool(n.a), zBool(n.b)}; r = Z3_mk_or(zc, 2, x); break; }
  case O_XOR: r = Z3_mk_xor(zc, zBool(n.a), zBool(n.b)); break;
  case O_ITE: r = Z3_mk_ite(zc, zBool(n.a), zBool(n.b), zBool(n.c)); break;
  case O_FEQ: case O_FLT: case O_FLE: {
    if (hasDiv(n.a) || hasDiv(n.b)) { r = zRatCmp(n.op, n.a, n.b); break; }
    bool real = ((N_[n.a].fl | N_[n.b].fl) & FL_NONINT); Z3_ast a = zFn(n.a, real), b = zFn(n.b, real);
    r = n.op == O_FEQ ? Z3_mk_eq(zc, a, b) : n.op == O_FLT ? Z3_mk_lt(zc, a, b) : Z3_mk_le(zc, a, b); break; }
  default: { Z3_ast x = zBV(s, 1); r = Z3_mk_eq(zc, x, Z3_mk_unsigned_int64(zc, 1, sBV(1))); }
  }
  cBool[s] = r; return r;
}
Z3_ast zBV(uint32_t s, unsigned) {
  auto it = cBV.find(s); if (it != cBV.end()) return it->second;
  Node n = N_[s]; Z3_ast r;
  auto A = [&] { return zBV(n.a, 0); }; auto B = [&] { return zBV(n.b, 0); };
  switch (n.op) {
  case O_CONST: r = Z3_mk_unsigned_int64(zc, n.k, sBV(n.w)); break;
  case O_VAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("v!" + std::to_string(n.k)).c_str()), sBV(64)); break;
  case O_GARB: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("g!" + std::to_string(n.k)).c_str()), sBV(n.w)); break;
  case O_BITS: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("b!" + std::to_string(s)).c_str()), sBV(64)); break;
  case O_ADD: r = Z3_mk_bvadd(zc, A(), B()); break; case O_SUB: r = Z3_mk_bvsub(zc, A(), B()); break;
  case O_MUL: r = Z3_mk_bvmul(zc, A(), B()); break; case O_UDIV: r = Z3_mk_bvudiv(zc, A(), B()); break;
  case O_SDIV: r = Z3_mk_bvsdiv(zc, A(), B()); break; case O_UREM: r = Z3_mk_bvurem(zc, A(), B()); break;
  case O_SREM: r = Z3_mk_bvsrem(zc, A(), B()); break;
  case O_AND: r = Z3_mk_bvand(zc, A(), B()); break; case O_OR: r = Z3_mk_bvor(zc, A(), B()); break;
  case O_XOR: r = Z3_mk_bvxor(zc, A(), B()); break; case O_SHL: r = Z3_mk_bvshl(zc, A(), B()); break;
  case O_LSHR: r = Z3_mk_bvlshr(zc, A(), B()); break; case O_ASHR: r = Z3_mk_bvashr(zc, A(), B()); break;
  case O_ITE: r = Z3_mk_ite(zc, zBool(n.a), B(), zBV(n.c, 0)); break;
  case O_ZEXT: r = Z3_mk_zero_ext(zc, n.w - N_[n.a].w, A()); break;
  case O_SEXT: r = Z3_mk_sign_ext(zc, n.w - N_[n.a].w, A()); break;
  case O_EXTRACT: r = Z3_mk_extract(zc, n.k + n.w - 1, n.k, A()); break;
  case O_CONCAT: r = Z3_mk_concat(zc, A(), B()); break;
  default: r = Z3_mk_ite(zc, zBool(s), Z3_mk_unsigned_int64(zc, 1, sBV(1)), Z3_mk_unsigned_int64(zc, 0, sBV(1)));
  }
  cBV[s] = r; return r;
}
static Z3_ast zConstF(double d, bool real) {
  if (!real) { char b[64]; snprintf(b, sizeof b, "%.0f", d); return Z3_mk_numeral(zc, b, Z3_mk_int_sort(zc)); }
  // exact: m * 2^e
  int e; double m = std::frexp(d, &e); long long mi = (long long)std::ldexp(m, 53); e -= 53;
  while (mi && (mi % 2) == 0) { mi /= 2; e++; }
  if (mi == 0) return Z3_mk_numeral(zc, "0", Z3_mk_real_sort(zc));
  Z3_ast base = Z3_mk_numeral(zc, std::to_string(mi).c_str(), Z3_mk_real_sort(zc));
  auto pow2 = [&](int k) { // decimal string of 2^k
    std::vector<int> dg{1}; for (int i = 0; i < k; i++) { int cy = 0; for (auto &x : dg) { x = x * 2 + cy; cy = x / 10; x %= 10; } if (cy) dg.push_back(cy); }
    std::string s; for (auto i = dg.rbegin(); i != dg.rend(); ++i) s += char('0' + *i); return s; };
  if (e == 0) return base;
  if (e > 0) { Z3_ast x[2] = {base, Z3_mk_numeral(zc, pow2(e).c_str(), Z3_mk_real_sort(zc))}; return Z3_simplify(zc, Z3_mk_mul(zc, 2, x)); }
  return Z3_mk_numeral(zc, (std::to_string(mi) + "/" + pow2(-e)).c_str(), Z3_mk_real_sort(zc));
}
static void flatAdd(uint32_t s, bool neg, std::vector<std::pair<uint32_t, bool>> &out) {
  std::vector<std::pair<uint32_t, bool>> st{{s, neg}};
  while (!st.empty()) {
    auto [x, ng] = st.back(); st.pop_back(); Node &n = N_[x];
    if (n.op == O_FADD) { st.push_back({n.a, ng}); st.push_back({n.b, ng}); }
    else if (n.op == O_FSUB) { st.push_back({n.a, ng}); st.push_back({n.b, !ng}); }
    else if (n.op == O_FNEG) st.push_back({n.a, !ng});
    else out.push_back({x, ng});
  }
}
static Z3_ast zFn(uint32_t s, bool real) {
  auto &cc = real ? cReal : cInt;
  auto it = cc.find(s); if (it != cc.end()) return it->second;
  Node n = N_[s]; Z3_ast r;
  switch (n.op) {
  case O_FCONST: r = zConstF(b2d(n.k), real); break;
  case O_FVAR: {
    r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("f!" + std::to_string(n.k)).c_str()), Z3_mk_int_sort(zc));
    if (real) { r = Z3_mk_int2real(zc, r); if (n.scale) { Z3_ast x[2] = {r, zConstF(std::ldexp(1.0, -n.scale), true)}; r = Z3_mk_mul(zc, 2, x); } }
    break; }
  case O_FADD: case O_FSUB: case O_FNEG: {
    std::vector<std::pair<uint32_t, bool>> t; flatAdd(s, false, t); std::vector<Z3_ast> v;
    for (auto &p : t) { Z3_ast x = zFn(p.first, real); if (p.second) { Z3_ast y[2] = {real ? zConstF(-1, true) : zConstF(-1, false), x}; x = Z3_mk_mul(zc, 2, y); } v.push_back(x); }
    r = v.size() == 1 ? v[0] : Z3_mk_add(zc, v.size(), v.data()); break; }
  case O_FMUL: { Z3_ast x[2] = {zFn(n.a, real), zFn(n.b, real)}; r = Z3_mk_mul(zc, 2, x); break; }
  case O_FDIV: r = Z3_mk_div(zc, zFn(n.a, true), zFn(n.b, true)); break;
  case O_FABS: { Z3_ast x = zFn(n.a, real), z = zConstF(0, real); r = Z3_mk_ite(zc, Z3_mk_le(zc, z, x), x, Z3_mk_unary_minus(zc, x)); break; }
  case O_FITE: r = Z3_mk_ite(zc, zBool(n.a), zFn(n.b, real), zFn(n.c, real)); break;
  case O_I2F: r = Z3_mk_bv2int(zc, zBV(n.a, 0), false); if (real) r = Z3_mk_int2real(zc, r); break;
  default: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("u!" + std::to_string(s)).c_str()), real ? Z3_mk_real_sort(zc) : Z3_mk_int_sort(zc));
  }
  cc[s] = r; return r;
}
Z3_ast zF(Val v, bool real) { return v.s ? zFn(v.s, real) : zConstF(b2d(v.v), real); }

static const char *opn[] = {"const", "var", "garb", "+", "-", "*", "u/", "s/", "u%", "s%", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "umulo", "uaddo", "ite", "zext", "sext", "extract", "concat", "bits", "fconst", "fvar", "f+", "f-", "f*", "f/", "fneg", "fabs", "fite", "f==", "f<", "f<=", "i2f", "unbits"};
std::string pp(Val v, unsigned w, int d) {
  if (!v.s) { if (w == WF) return std::to_string(b2d(v.v)); return std::to_string(v.v); }
  Node &n = N_[v.s];
  if (n.op == O_CONST) return std::to_string(n.k);
  if (n.op == O_FCONST) return std::to_string(b2d(n.k));
  if (n.op == O_VAR || n.op == O_FVAR) return vars[n.k].name;
  if (n.op == O_GARB) return "UNINIT";
  if (d <= 0) return "...";
  std::string s = std::string("(") + opn[n.op];
  for (uint32_t c : {n.a, n.b, n.c}) if (c) s += " " + pp(Val{0, c}, 0, d - 1);
  return s + ")";
}
