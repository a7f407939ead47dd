// Hash-consed symbolic expressions: bit-vectors (width 1..64) and exact reals (width WF).
#pragma once
#include <cstdint>
#include <cstring>
#include <cmath>
#include <vector>
#include <string>
#include <unordered_map>
#include <algorithm>
#include <z3.h>

enum : uint8_t { WF = 255 };
enum Op : uint8_t {
  O_CONST, O_VAR, O_GARB,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_UMULO, O_UADDO,
  O_ITE, O_ZEXT, O_SEXT, O_EXTRACT, O_CONCAT, O_BITS /* F -> BV64 opaque */,
  O_FCONST, O_FVAR, O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FNEG, O_FABS, O_FITE, O_FEQ, O_FLT, O_FLE,
  O_I2F /* unsigned bv -> F */, O_UNBITS /* BV64 -> F opaque */
};
enum : uint8_t { FL_TAINT = 1, FL_HASF = 2, FL_INEXACT = 4, FL_NONINT = 8 };

struct Node {
  uint8_t op, w, fl, pc;
  uint32_t a, b, c;
  uint64_t k;
  uint32_t epoch;
  int32_t scale;  // F: value is an integer multiple of 2^-scale
  uint64_t pv;
  double mx;      // F: |value| <= mx
};

struct Val {
  uint64_t v;
  uint32_t s;
};
static inline Val cval(uint64_t v) { return Val{v, 0}; }
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline double b2d(uint64_t b) { double d; memcpy(&d, &b, 8); return d; }
static inline uint64_t d2b(double d) { uint64_t b; memcpy(&b, &d, 8); return b; }
static inline int64_t sx(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : ((int64_t)(v << (64 - w))) >> (64 - w); }

struct VarInfo { std::string name; bool isF; uint64_t lo, hi; double mx; int scale; bool pinned; uint64_t pin; uint32_t node; };

extern std::vector<Node> N_;
extern std::vector<VarInfo> vars;
extern uint32_t pinEpoch;
extern std::unordered_map<uint32_t, uint64_t> overrides;
uint32_t mkNode(Node n);
uint32_t constNode(uint64_t v, unsigned w);
uint32_t fconstNode(uint64_t bits);
uint32_t newVar(const std::string &name, uint64_t lo, uint64_t hi);
uint32_t newFVar(const std::string &name, double mx, int scale);
uint32_t newGarbage(unsigned w);
bool resolve(uint32_t s, uint64_t &out);
static inline Val rs(Val x) {
  if (x.s && pinEpoch) { uint64_t o; if (resolve(x.s, o)) return cval(o); }
  return x;
}
Val mkRaw(uint8_t op, Val a, Val b, unsigned w);
Val mkBin(uint8_t op, Val a, Val b, unsigned w);
Val mkIte(Val c, Val a, Val b, unsigned w, bool isF);
Val mkZext(Val a, unsigned from, unsigned to);
Val mkSext(Val a, unsigned from, unsigned to);
Val mkExtract(Val a, unsigned from, unsigned lo, unsigned w);
Val mkConcat(Val hi, unsigned whi, Val lo, unsigned wlo);
Val mkF(uint8_t op, Val a, Val b);
Val mkFcmp(uint8_t op, Val a, Val b);
Val mkI2F(Val a, unsigned w);
Val toBV(Val a);   // a 64-bit value that may carry an F node, as a bit-vector
Val toF(Val a);    // a 64-bit value that may carry a BV node, as F
inline bool isFnode(uint32_t s) { return N_[s].w == WF; }
inline bool tainted(Val a) { return a.s && (N_[a.s].fl & FL_TAINT); }
void leaves(uint32_t s, std::vector<uint32_t> &out);
// concrete evaluation under an assignment (per var index)
struct Eval {
  std::vector<uint64_t> bv; std::vector<double> fv;
  std::unordered_map<uint32_t, uint64_t> memo;
  uint64_t ev(uint32_t s);
};
extern bool dataPinned; extern Eval pinEval; // every input has one concrete value from here on
// z3
extern Z3_context zc;
Z3_ast zBool(uint32_t s);
Z3_ast zBV(uint32_t s, unsigned w);
Z3_ast zBVv(Val v, unsigned w);
Z3_ast zBoolV(Val v);
Z3_ast zF(Val v, bool real);
std::string pp(Val v, unsigned w, int depth = 6);
