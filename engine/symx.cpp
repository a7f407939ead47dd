// symx: a symbolic executor for LLVM IR (LLVM 18), solver z3.
// Executes one entry function of a module over symbolic inputs, forking (fork(2)) on every feasible branch.
#include "expr.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfo.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <map>
#include <set>
#include <deque>
#include <sstream>
using namespace llvm;
typedef uint64_t u64; typedef uint32_t u32;

// ------------------------------------------------------------------ shared state
struct Shared {
  std::atomic<long> tokens, paths, forks, queries, qsat, qunsat, qunk, asserts, symAsserts, viol, errs, samples, infeasible, eqs, races, accesses, pinned; std::atomic<u64> sampleMax;
  std::atomic<unsigned long> instrs, solverUs, reach[256], maxPathInstr, stop, maxNodes;
  std::atomic<unsigned char> fn[65536];
};
static Shared *sh;
static std::string outDir = "/tmp/symx-out";
static std::map<std::string, u64> params;
static u64 instrCap = 4000000000ull; static unsigned maxViol = 6; static u64 concCap = 8192;
static unsigned rlimitQ = 400000000;
static bool ownToken = true; static std::vector<pid_t> kids;
static u64 instrCount = 0, instrBase = 0; static long locAcc = 0, locAsserts = 0;
static bool verboseEng = false; static double deadline = 0;
static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

[[noreturn]] static void finishProcess() {
  sh->instrs += instrCount - instrBase; sh->accesses += locAcc; sh->asserts += locAsserts; { unsigned long m = sh->maxPathInstr; while (instrCount > m && !sh->maxPathInstr.compare_exchange_weak(m, instrCount)); }
  { unsigned long m = sh->maxNodes, c = N_.size(); while (c > m && !sh->maxNodes.compare_exchange_weak(m, c)); }
  if (ownToken) sh->tokens++;
  for (pid_t k : kids) { int st; while (waitpid(k, &st, 0) < 0 && errno == EINTR); if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->errs++; }
  fflush(stdout); fflush(stderr);
  _exit(0);
}
static std::string jstr(const std::string &s) {
  std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\"";
}
// ------------------------------------------------------------------ solver
static Z3_solver solver;
static std::vector<Val> pathCond;
struct Model { std::vector<u64> bv; std::vector<double> fv; bool ok = false; };
static Model lastModel;
enum R { SAT, UNSAT, UNK };
static void errH(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); sh->errs++; }
static void initZ3() {
  Z3_config cfg = Z3_mk_config(); Z3_set_param_value(cfg, "model", "true");
  zc = Z3_mk_context(cfg); Z3_set_error_handler(zc, errH);
  solver = Z3_mk_simple_solver(zc); Z3_solver_inc_ref(zc, solver);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), rlimitQ);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "random_seed"), 1);
  Z3_solver_set_params(zc, solver, p);
}
static bool extractModel(Model &m) {
  Z3_model zm = Z3_solver_get_model(zc, solver); if (!zm) return false; Z3_model_inc_ref(zc, zm);
  m.bv.assign(vars.size(), 0); m.fv.assign(vars.size(), 0); bool ok = true;
  Z3_sort s64 = Z3_mk_bv_sort(zc, 64), si = Z3_mk_int_sort(zc);
  unsigned nc = Z3_model_get_num_consts(zc, zm);
  for (size_t i = 0; i < vars.size(); i++) { if (!vars[i].isF) m.bv[i] = vars[i].pinned ? vars[i].pin : vars[i].lo; }
  for (unsigned c = 0; c < nc; c++) {
    Z3_func_decl d = Z3_model_get_const_decl(zc, zm, c); std::string nm = Z3_get_symbol_string(zc, Z3_get_decl_name(zc, d));
    if (nm.size() < 3 || nm[1] != '!' || (nm[0] != 'v' && nm[0] != 'f')) continue;
    size_t i = strtoul(nm.c_str() + 2, 0, 10); Z3_ast v = Z3_model_get_const_interp(zc, zm, d); if (!v || i >= vars.size()) continue;
    const char *s = Z3_get_numeral_string(zc, v);
    if (nm[0] == 'v') m.bv[i] = strtoull(s, 0, 10);
    else { double x = strtod(s, 0); x = std::ldexp(x, -vars[i].scale); if (std::fabs(x) > vars[i].mx) ok = false; m.fv[i] = x; }
  }
  (void)s64; (void)si;
  Z3_model_dec_ref(zc, zm); m.ok = true; return ok;
}
static R zcheck() {
  double t = nowS(); Z3_lbool r = Z3_solver_check(zc, solver); sh->solverUs += (unsigned long)((nowS() - t) * 1e6);
  sh->queries++; if (r == Z3_L_TRUE) { sh->qsat++; return SAT; } if (r == Z3_L_FALSE) { sh->qunsat++; return UNSAT; } sh->qunk++; return UNK;
}
static R checkWith(Z3_ast extra, Model *m) {
  Z3_solver_push(zc, solver); if (extra) Z3_solver_assert(zc, solver, extra);
  R r = zcheck(); if (r == SAT && m) {
    if (!extractModel(*m)) { // floats out of their domain: add the domain bounds and ask again
      for (size_t i = 0; i < vars.size(); i++) if (vars[i].isF) {
        Z3_ast x = Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("f!" + std::to_string(i)).c_str()), Z3_mk_int_sort(zc));
        char b[64]; snprintf(b, sizeof b, "%.0f", std::ldexp(vars[i].mx, vars[i].scale)); Z3_ast hi = Z3_mk_numeral(zc, b, Z3_mk_int_sort(zc));
        Z3_ast lo = Z3_mk_unary_minus(zc, hi); Z3_solver_assert(zc, solver, Z3_mk_le(zc, x, hi)); Z3_solver_assert(zc, solver, Z3_mk_le(zc, lo, x));
      }
      r = zcheck(); if (r == SAT) extractModel(*m);
    }
  }
  Z3_solver_pop(zc, solver, 1); return r;
}
static void addPC(Val c) { pathCond.push_back(c); Z3_solver_assert(zc, solver, zBoolV(c)); }
static bool modelSays(Val c, bool &out) {
  if (!lastModel.ok) return false; if (N_[c.s].fl & FL_HASF) return false;
  Eval e; e.bv = lastModel.bv; e.bv.resize(vars.size()); for (size_t i = lastModel.bv.size(); i < vars.size(); i++) e.bv[i] = vars[i].lo;
  out = e.ev(c.s) & 1; return true;
}
static Val notV(Val c) { return mkBin(O_XOR, c, cval(1), 1); }

// ------------------------------------------------------------------ decoded program
struct DFunc;
struct PhiC { int dst, src; int n; };
struct Edge { std::vector<PhiC> c; };
struct GepT { int op; int w; int64_t scale; };
struct CallI { DFunc *callee; int bi; int calleeOp; std::vector<int> args; std::vector<int> argn; std::vector<int> argw; std::vector<u64> byval; bool isInvoke; int normalB, normalE, unwindB, unwindE; const InlineAsm *ia; const CallBase *cb; };
struct LpadC { bool cleanup; std::vector<std::pair<int, int>> clauses; /* kind(0 catch,1 filter), op */ };
struct SwI { std::vector<std::pair<u64, int>> cases; std::vector<int> edges; int defB, defE; };
struct DI {
  uint16_t op; uint8_t w, w2; int n; int dst, a, b, c; int64_t imm; int aux; const Instruction *src;
};
enum DOp : uint16_t {
  D_BIN = 1, D_ICMP, D_FBIN, D_FNEG, D_FCMP, D_COPY, D_SELECT, D_ZEXT, D_SEXT, D_TRUNC, D_UITOFP, D_SITOFP, D_FPTOUI, D_FPTOSI, D_FPEXT, D_FPTRUNC, D_BITCAST,
  D_ALLOCA, D_LOAD, D_STORE, D_GEP, D_BR, D_CBR, D_SWITCH, D_RET, D_CALL, D_UNREACH, D_LPAD, D_RESUME, D_EXTELT, D_INSELT, D_SHUF, D_CMPXCHG, D_RMW, D_FREEZE, D_INSVAL, D_NOP, D_GEPF
};
struct DFunc {
  Function *F; bool decoded = false; std::vector<DI> code; std::vector<int> bstart; std::vector<Edge> edges; std::vector<std::vector<GepT>> geps; std::vector<CallI> calls; std::vector<LpadC> lpads; std::vector<SwI> sws; std::vector<std::vector<int>> shufs; std::vector<std::vector<int>> memk;
  int nslots = 0; std::vector<int> argSlot; std::vector<Val *> freeSlots; int bi = -1; std::string name; u64 addr; bool isVarArg = false;
};
static Module *M; static const DataLayout *DL;
static std::vector<Val> cpool;
static std::map<const Function *, DFunc *> dfuncs; static std::vector<DFunc *> dfv;
static std::map<const DISubprogram *, int> spIdx; static std::vector<const DISubprogram *> spv;

// ------------------------------------------------------------------ memory
static const u64 SH = 36, OMASK = (1ull << SH) - 1;
struct Shadow { u32 wt, wc, rt, rc; u32 era; uint8_t wm, rm; uint8_t multi; };
struct Obj { u64 base, size; u64 *data; uint8_t *init; u32 *sym; Shadow *shw; uint8_t alive, kind, ro; const char *what; u64 seq; };
enum { K_HEAP, K_STACK, K_GLOBAL, K_FUNC, K_NEW, K_NEWARR, K_ALIGNED };
static std::vector<Obj> objs;
static u64 mallocSkew = 16; static std::deque<u32> freeIds; static u64 heapBytes = 0, objSeq = 0;
static u64 allocObj(u64 size, u64 align, int kind, const char *what) {
  u32 id; if (freeIds.size() > 200000) { id = freeIds.front(); freeIds.pop_front(); } else { id = objs.size(); objs.push_back(Obj{}); }
  u64 bo = 0x1000000; if (kind == K_HEAP || kind == K_NEW || kind == K_NEWARR) bo += mallocSkew; else bo += align ? align : 1;
  Obj &o = objs[id]; o.base = ((u64)id << SH) | bo; o.size = size; u64 nc = (size + 7) / 8 + 1;
  if (nc > (1ull << 31)) { fprintf(stderr, "allocation too large\n"); }
  o.data = (u64 *)calloc(nc, 8); o.init = (uint8_t *)calloc(nc, 1); o.sym = nullptr; o.shw = nullptr; o.alive = 1; o.kind = kind; o.ro = 0; o.what = what; o.seq = ++objSeq;
  return o.base;
}
static void killObj(u32 id) { Obj &o = objs[id]; o.alive = 0; free(o.data); free(o.init); free(o.sym); free(o.shw); o.data = 0; o.init = 0; o.sym = 0; o.shw = 0; if (o.kind == K_STACK) freeIds.push_back(id); }

struct Frame { DFunc *f; Val *s; int pc; int curBlock; std::vector<u32> allocas; int retDst, retN; int unwindB, unwindE, normalB, normalE; bool inv; u64 vaObj; };
struct Thread { std::vector<Frame> st; int barrier = 0; int tid = 0; };
static Thread *cur; 
struct Exc { u64 ptr; u64 tinfo; u64 dtor; int refs; };
static std::map<u64, Exc> excs; static std::vector<u64> caught; 
static u64 unwindingExc = 0;

static std::string locOf(const Instruction *I) {
  if (!I) return "?"; const DebugLoc &dl = I->getDebugLoc(); if (!dl) return "?"; std::string s; const DILocation *l = dl.get();
  int k = 0; while (l && k < 8) { if (k) s += " < "; s += (l->getFilename() + ":" + Twine(l->getLine())).str(); auto *sp = l->getScope()->getSubprogram(); if (sp) s += " (" + sp->getName().str() + ")"; l = l->getInlinedAt(); k++; }
  return s;
}
static const Instruction *curInst() { if (!cur || cur->st.empty()) return nullptr; Frame &f = cur->st.back(); return f.f->code[f.pc].src; }
static std::string stackTrace() {
  std::string s; if (!cur) return s; int k = 0;
  for (auto it = cur->st.rbegin(); it != cur->st.rend() && k < 12; ++it, ++k) s += "#" + std::to_string(k) + " " + demangle(it->f->name) + " @ " + locOf(it->f->code[it->pc].src) + "\n";
  return s;
}
static void writeVars(FILE *f, const Model &m) {
  fprintf(f, "\"vars\":{"); bool first = true;
  for (size_t i = 0; i < vars.size(); i++) {
    if (!first) fprintf(f, ","); first = false;
    if (vars[i].isF) fprintf(f, "%s:\"%a\"", jstr(vars[i].name).c_str(), i < m.fv.size() ? m.fv[i] : 0.0);
    else fprintf(f, "%s:\"%llu\"", jstr(vars[i].name).c_str(), (unsigned long long)(i < m.bv.size() ? m.bv[i] : vars[i].lo));
  }
  fprintf(f, "}");
}
static bool taintReal(Val c);
[[noreturn]] static void engineError(const std::string &msg);
static double rndLarge(const VarInfo &v);
static std::string pinWhy; static bool inFlush = false;
static void assertPin(size_t i, double x) { char b[64]; snprintf(b, sizeof b, "%.0f", std::ldexp(x, vars[i].scale)); Z3_solver_assert(zc, solver, Z3_mk_eq(zc, Z3_mk_const(zc, Z3_mk_string_symbol(zc, ("f!" + std::to_string(i)).c_str()), Z3_mk_int_sort(zc)), Z3_mk_numeral(zc, b, Z3_mk_int_sort(zc)))); }
// The encoding cannot follow the data through this operation (rounding to a narrower type, say). The path continues with
// one witness of the path condition for all inputs: a violation it ends in is a real one; without one there is no answer.
static void flushEqs();
static const u64 WIDE_RANGE = 1ull << 30;
static u64 rnd64() { static u64 rs = 0x2545f4914f6cdd1dull; rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs; }
static void pinData(const std::string &why, Z3_ast hint = nullptr) { // hint: preferred for the witness
  if (dataPinned || inFlush) engineError(why); flushEqs();
  Model m; std::vector<Z3_ast> wide; // integers of a large range: arbitrary values, if the path allows them
  for (size_t i = 0; i < vars.size(); i++) if (!vars[i].isF && !vars[i].pinned && vars[i].hi - vars[i].lo >= WIDE_RANGE) { u64 n = vars[i].hi - vars[i].lo + 1, rs = rnd64(); wide.push_back(Z3_mk_eq(zc, zBV(vars[i].node, 64), Z3_mk_unsigned_int64(zc, vars[i].lo + (n ? rs % n : rs), Z3_mk_bv_sort(zc, 64)))); }
  if (!(wide.size() && checkWith(Z3_mk_and(zc, wide.size(), wide.data()), &m) == SAT) && !(hint && checkWith(hint, &m) == SAT) && checkWith(nullptr, &m) != SAT) engineError(why); m.bv.resize(vars.size()); m.fv.resize(vars.size());
  bool free = true; for (auto &c : pathCond) if (N_[c.s].fl & FL_HASF) free = false;
  if (free) for (size_t i = 0; i < vars.size(); i++) if (vars[i].isF) m.fv[i] = rndLarge(vars[i]);
  for (size_t i = 0; i < vars.size(); i++) if (vars[i].isF) assertPin(i, m.fv[i]); else if (!vars[i].pinned) { vars[i].pinned = true; vars[i].pin = m.bv[i]; Node e{}; e.op = O_EQ; e.w = 1; e.a = vars[i].node; e.b = constNode(m.bv[i], 64); u32 id = mkNode(e); addPC(Val{0, id}); }
  pinEval.bv = m.bv; pinEval.fv = m.fv; pinEval.memo.clear(); dataPinned = true; pinWhy = why; pinEpoch++; lastModel.ok = false;
}
static void pinnedVar(u32 node) { if (!dataPinned) return; size_t i = N_[node].k; pinEval.fv.resize(vars.size()); pinEval.fv[i] = rndLarge(vars[i]); assertPin(i, pinEval.fv[i]); }
static void genericModel(Model &m);
static void flushEqs();
static bool eqsPendingEmpty();
[[noreturn]] static void endPath(bool counted = true) {
  if (counted) {
    flushEqs(); sh->paths++;
    if (dataPinned) { sh->pinned++; sh->errs++; if (sh->pinned == 1) { FILE *f = fopen((outDir + "/error.txt").c_str(), "a"); if (f) { fprintf(f, "only one witness of the data was followed: %s\n", pinWhy.c_str()); fclose(f); } } finishProcess(); }
    // samples for the native validation run: the first path, and every path notably longer than those before it
    u64 mx = sh->sampleMax; bool take = sh->samples == 0 || instrCount > mx + mx / 3; if (take && sh->sampleMax.compare_exchange_strong(mx, std::max(mx, instrCount))) {
      long k = sh->samples++ % 8; Model m; genericModel(m);
      FILE *f = fopen((outDir + "/sample." + std::to_string(k) + ".json").c_str(), "w");
      if (f) { fprintf(f, "{\"instructions\":%llu,\"decisions\":%zu,\"path_condition\":[", (unsigned long long)instrCount, pathCond.size());
        for (size_t i = 0; i < pathCond.size() && i < 24; i++) fprintf(f, "%s%s", i ? "," : "", jstr(pp(pathCond[i], 1, 5)).c_str());
        fprintf(f, "],"); writeVars(f, m); fprintf(f, "}"); fclose(f); }
    }
  }
  finishProcess();
}
static void recordViolation(const char *kind, const std::string &msg, const Model &m) {
  long k = sh->viol++; if (k >= (long)maxViol) { sh->stop = 1; return; }
  FILE *f = fopen((outDir + "/viol." + std::to_string(k) + ".json").c_str(), "w");
  if (!f) return;
  fprintf(f, "{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"stack\":%s,", jstr(kind).c_str(), jstr(msg).c_str(), jstr(locOf(curInst())).c_str(), jstr(stackTrace()).c_str());
  writeVars(f, m); fprintf(f, "}\n"); fclose(f);
  if (k + 1 >= (long)maxViol) sh->stop = 1;
}
[[noreturn]] static void violation(const char *kind, const std::string &msg) {
  flushEqs();
  Model m; R r = checkWith(nullptr, &m);
  if (r == UNSAT) { sh->infeasible++; finishProcess(); }
  if (r == UNK) { sh->errs++; fprintf(stderr, "symx: unknown path feasibility at violation %s\n", msg.c_str()); }
  recordViolation(kind, msg, m); sh->paths++; finishProcess();
}
[[noreturn]] static void engineError(const std::string &msg) {
  sh->errs++; fprintf(stderr, "symx ERROR: %s\n at %s\n%s", msg.c_str(), locOf(curInst()).c_str(), stackTrace().c_str());
  FILE *f = fopen((outDir + "/error.txt").c_str(), "a"); if (f) { fprintf(f, "%s\n%s\n", msg.c_str(), stackTrace().c_str()); fclose(f); }
  sh->stop = 1; finishProcess();
}
static void stopCheck() { if (sh->stop) finishProcess(); if (deadline && nowS() > deadline) { sh->errs++; FILE *f = fopen((outDir + "/error.txt").c_str(), "a"); if (f) { fprintf(f, "deadline reached\n"); fclose(f); } sh->stop = 1; finishProcess(); } }

// fork into n alternatives; returns the alternative this process continues with
static int forkChoice(int n) {
  for (int i = 0; i + 1 < n; i++) {
    stopCheck();
    long t = sh->tokens; bool got = false; while (t > 0) { if (sh->tokens.compare_exchange_weak(t, t - 1)) { got = true; break; } }
    fflush(stdout); fflush(stderr);
    sh->forks++;
    pid_t p = fork();
    if (p < 0) { if (got) sh->tokens++; engineError("fork failed"); }
    if (p == 0) { kids.clear(); ownToken = got; instrBase = instrCount; locAcc = locAsserts = 0; return i; }
    if (got) kids.push_back(p);
    else { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR); if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->errs++; }
    // reap finished concurrent children to bound the process table
    for (size_t k = 0; k < kids.size();) { int st; pid_t r = waitpid(kids[k], &st, WNOHANG); if (r == kids[k]) { if (!WIFEXITED(st) || WEXITSTATUS(st)) sh->errs++; kids.erase(kids.begin() + k); } else k++; }
  }
  stopCheck();
  return n - 1;
}
// decide a symbolic condition; adds it to the path condition; returns the truth value taken
static bool decide(Val c) {
  c = rs(c); if (!c.s) return c.v & 1;
  if (tainted(c) && taintReal(c)) violation("uninitialised", "control flow depends on an uninitialised value: " + pp(c, 1));
  bool mv; bool canT, canF; R r;
  if (modelSays(c, mv)) {
    if (mv) { canT = true; r = checkWith(zBoolV(notV(c)), nullptr); canF = r != UNSAT; } else { canF = true; r = checkWith(zBoolV(c), nullptr); canT = r != UNSAT; }
    if (r == UNK) engineError("solver gave no answer on a branch");
  } else {
    Model m; r = checkWith(zBoolV(c), &m); if (r == UNK) engineError("solver gave no answer on a branch"); canT = r == SAT; if (canT) lastModel = m;
    r = checkWith(zBoolV(notV(c)), canT ? nullptr : &m); if (r == UNK) engineError("solver gave no answer on a branch"); canF = r == SAT; if (!canT && canF) lastModel = m;
  }
  if (!canT && !canF) { sh->infeasible++; finishProcess(); }
  bool t = canT;
  if (canT && canF) { t = forkChoice(2) == 0; 
    Val k = t ? c : notV(c); addPC(k); bool x; if (modelSays(k, x) && !x) { Model m; if (checkWith(nullptr, &m) == SAT) lastModel = m; } }
  return t;
}
static void pinVar(u32 vi, u64 val) {
  vars[vi].pinned = true; vars[vi].pin = val; pinEpoch++;
  Node n{}; (void)n; Val c; { Node e{}; e.op = O_EQ; e.w = 1; e.a = vars[vi].node; e.b = constNode(val, 64); u32 id = mkNode(e); c = Val{0, id}; }
  pathCond.push_back(c); Z3_solver_assert(zc, solver, zBool(c.s));
  if (lastModel.ok && vi < lastModel.bv.size() && lastModel.bv[vi] != val) lastModel.ok = false;
}
static u64 concretize(Val v, unsigned w, const char *why) {
  for (;;) {
    v = rs(v); if (!v.s) return v.v;
    if (tainted(v) && taintReal(v)) violation("uninitialised", std::string(why) + " depends on an uninitialised value: " + pp(v, w));
    if (N_[v.s].fl & FL_HASF) { pinData(std::string("cannot concretise a value that depends on matrix data: ") + pp(v, w)); continue; }
    std::vector<u32> lv; leaves(v.s, lv); u32 best = ~0u; u64 br = ~0ull;
    for (u32 l : lv) if (!vars[l].isF && !vars[l].pinned) { u64 rg = vars[l].hi - vars[l].lo; if (best == ~0u || rg < br) { br = rg; best = l; } }
    bool byVar = best != ~0u && br <= 1024;
    Z3_ast e = byVar ? zBV(vars[best].node, 64) : zBV(v.s, w);
    std::vector<u64> vals; bool many = false;
    if (best != ~0u && br >= WIDE_RANGE && !dataPinned) { // integers of a large range: does the value take more values than can be enumerated?
      std::set<u64> seen; int feasible = 0;
      for (int k = 0; k < 80; k++) { Eval ev; ev.bv.resize(vars.size()); ev.fv.resize(vars.size()); std::vector<Z3_ast> eq;
        for (size_t i = 0; i < vars.size(); i++) if (!vars[i].isF) { u64 n = vars[i].hi - vars[i].lo + 1; ev.bv[i] = vars[i].pinned ? vars[i].pin : vars[i].lo + (n ? rnd64() % n : rnd64()); if (k < 2 && !vars[i].pinned) eq.push_back(Z3_mk_eq(zc, zBV(vars[i].node, 64), Z3_mk_unsigned_int64(zc, ev.bv[i], Z3_mk_bv_sort(zc, 64)))); }
        if (k < 2) { if (eq.empty() || checkWith(Z3_mk_and(zc, eq.size(), eq.data()), nullptr) != SAT) break; feasible++; }
        seen.insert(ev.ev(v.s)); }
      many = feasible == 2 && seen.size() > 64;
    }
    Z3_solver_push(zc, solver);
    Z3_sort bs = Z3_get_sort(zc, e);
    while (!many) {
      R r = zcheck(); if (r == UNK) engineError("solver gave no answer while enumerating values"); if (r == UNSAT) break;
      Z3_model zm = Z3_solver_get_model(zc, solver); Z3_model_inc_ref(zc, zm); Z3_ast o = nullptr; Z3_model_eval(zc, zm, e, true, &o); uint64_t x = 0; Z3_get_numeral_uint64(zc, o, &x); Z3_model_dec_ref(zc, zm);
      vals.push_back(x); Z3_solver_assert(zc, solver, Z3_mk_not(zc, Z3_mk_eq(zc, e, Z3_mk_unsigned_int64(zc, x, bs))));
      if (vals.size() > concCap || (best != ~0u && br >= WIDE_RANGE && vals.size() > 64)) { many = true; break; }
    }
    Z3_solver_pop(zc, solver, 1);
    if (many) { // go on with one witness only, if possible one that uses many bits
      Z3_ast h = nullptr; if (w > 8) { Z3_ast x = zBV(v.s, w), c[2] = {Z3_mk_eq(zc, Z3_mk_extract(zc, 0, 0, x), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1))), Z3_mk_eq(zc, Z3_mk_extract(zc, w - 2, w - 2, x), Z3_mk_unsigned_int64(zc, 1, Z3_mk_bv_sort(zc, 1)))}; h = Z3_mk_and(zc, 2, c); }
      pinData(std::string("too many values to enumerate for ") + why + ": " + pp(v, w), h); continue;
    }
    if (vals.empty()) { sh->infeasible++; finishProcess(); }
    std::sort(vals.begin(), vals.end());
    int k = vals.size() == 1 ? 0 : forkChoice(vals.size());
    if (byVar) pinVar(best, vals[k]);
    else { Node q{}; q.op = O_EQ; q.w = 1; q.a = v.s; q.b = constNode(vals[k], w); q.fl = N_[v.s].fl; u32 id = mkNode(q); addPC(Val{0, id}); overrides[v.s] = vals[k]; pinEpoch++; lastModel.ok = false; }
  }
}

// ------------------------------------------------------------------ race detection (happens-before, vector clocks)
static bool raceOn = false; static u32 era = 1; static u32 curTask = 0; static int liveTasks = 0; static int raceExempt = 0;
static std::vector<std::vector<u32>> VC; // per task
static std::map<u64, std::vector<u32>> lockVC; static std::unordered_map<u64, std::vector<std::pair<u32, u32>>> multiReads;
static std::vector<u32> taskFinished;
static bool raceEnabled = true;
static inline bool hb(u32 t, u32 c) { auto &v = VC[curTask]; return t < v.size() && v[t] >= c; }
static void vjoin(std::vector<u32> &a, const std::vector<u32> &b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i]; }
static void raceFail(bool w, Obj &o, u64 off) {
  sh->races++; char b[256]; snprintf(b, sizeof b, "unsynchronised %s of %s object of %llu bytes at byte offset %llu conflicts with an access of another task", w ? "write" : "access", o.what ? o.what : "memory", (unsigned long long)o.size, (unsigned long long)off);
  violation("race", b);
}
static void raceAccess(Obj &o, u64 off, u64 size, bool wr) {
  if (raceExempt) return;
  if (!o.shw) o.shw = (Shadow *)calloc((o.size + 7) / 8 + 1, sizeof(Shadow));
  locAcc++;
  for (u64 c = off >> 3; c <= (off + size - 1) >> 3; c++) {
    u64 lo = c * 8; uint8_t m = 0; for (int i = 0; i < 8; i++) if (lo + i >= off && lo + i < off + size) m |= 1 << i;
    Shadow &s = o.shw[c]; if (s.era != era) { s = Shadow{}; s.era = era; }
    u32 mc = VC[curTask][curTask];
    if (s.wm && (s.wm & m) && s.wt != curTask && !hb(s.wt, s.wc)) raceFail(wr, o, off);
    if (wr) {
      if (s.multi) { auto &v = multiReads[((u64)(&o - &objs[0]) << 32) | c]; for (auto &p : v) if (p.first != curTask && !hb(p.first, p.second)) raceFail(true, o, off); v.clear(); s.multi = 0; s.rm = 0; }
      else if (s.rm && (s.rm & m) && s.rt != curTask && !hb(s.rt, s.rc)) raceFail(true, o, off);
      if (s.wm && s.wt != curTask && !(s.wm & m) && !hb(s.wt, s.wc)) { s.wt = curTask; s.wc = mc; s.wm = m; } // neighbours inside one word: keep the newest
      else { s.wm = s.wt == curTask && s.wc == mc ? (s.wm | m) : m; s.wt = curTask; s.wc = mc; }
    } else {
      if (s.multi) { multiReads[((u64)(&o - &objs[0]) << 32) | c].push_back({curTask, mc}); }
      else if (s.rm && s.rt != curTask && !hb(s.rt, s.rc)) { auto &v = multiReads[((u64)(&o - &objs[0]) << 32) | c]; v.clear(); v.push_back({s.rt, s.rc}); v.push_back({curTask, mc}); s.multi = 1; }
      else { s.rm = s.rt == curTask ? s.rm | m : m; s.rt = curTask; s.rc = mc; }
    }
  }
}
// deduplicate multiReads growth
static u32 taskFork() {
  if (!raceOn) { raceOn = raceEnabled; if (VC.empty()) { VC.push_back({1}); taskFinished.push_back(0); } }
  u32 id = VC.size(); VC.push_back(VC[curTask]); VC[id].resize(id + 1, 0); VC[id][id] = 1; taskFinished.push_back(0);
  VC[curTask][curTask]++; liveTasks++; return id;
}
static u64 taskBase = 0; // identities of finished generations are never reused
static u32 tIn(u64 ext) { return ext > taskBase && ext - taskBase < VC.size() ? (u32)(ext - taskBase) : 0; }
static u64 tOut(u32 t) { return t ? taskBase + t : 0; }
static void atomicSync(u64 ad, bool acq, bool rel) { if (!raceOn || raceExempt) return; auto &L = lockVC[ad]; if (acq) vjoin(VC[curTask], L); if (rel) { vjoin(L, VC[curTask]); VC[curTask][curTask]++; } }
static void taskJoin(u32 t) { if (!t || t >= VC.size()) return; vjoin(VC[curTask], VC[t]); if (!taskFinished[t]) { taskFinished[t] = 1; liveTasks--; }
  if (liveTasks == 0 && curTask == 0) { era++; multiReads.clear(); lockVC.clear(); taskBase += VC.size() - 1; VC.resize(1); VC[0].assign(1, VC[0][0] + 1); taskFinished.resize(1); raceOn = false; } }

// ------------------------------------------------------------------ loads and stores
static std::string hex(u64 a) { char b[32]; snprintf(b, sizeof b, "0x%llx", (unsigned long long)a); return b; }
[[noreturn]] static void memFault(u64 addr, u64 size, bool wr) {
  u64 id = addr >> SH; char b[256]; const char *rw = wr ? "write" : "read";
  if (addr < 0x10000) snprintf(b, sizeof b, "null pointer %s of %llu bytes (address %s)", rw, (unsigned long long)size, hex(addr).c_str());
  else if (id >= objs.size()) snprintf(b, sizeof b, "wild %s of %llu bytes at %s", rw, (unsigned long long)size, hex(addr).c_str());
  else if (!objs[id].alive) snprintf(b, sizeof b, "%s of %llu bytes in freed or out-of-scope %s object (use after free)", rw, (unsigned long long)size, objs[id].what ? objs[id].what : "");
  else snprintf(b, sizeof b, "out-of-bounds %s of %llu bytes at offset %lld of a %llu-byte %s object", rw, (unsigned long long)size, (long long)(addr - objs[id].base), (unsigned long long)objs[id].size, objs[id].what ? objs[id].what : "");
  violation("memory", b);
}
static inline Obj &locate(u64 addr, u64 size, u64 &off, bool wr) {
  u64 id = addr >> SH; if (id >= objs.size() || !objs[id].alive) memFault(addr, size, wr);
  Obj &o = objs[id]; off = addr - o.base; if (off + size > o.size || off > o.size) memFault(addr, size, wr);
  if (wr && o.ro) violation("memory", "write to a constant object");
  if (raceOn) raceAccess(o, off, size, wr);
  return o;
}
static inline void needSym(Obj &o) { if (!o.sym) o.sym = (u32 *)calloc((o.size + 7) / 8 + 1, 4); }
// whole cell as a 64-bit value
static Val cellVal(Obj &o, u64 c) {
  if (o.sym && o.sym[c]) return Val{0, o.sym[c]};
  uint8_t m = o.init[c]; if (m == 0xFF) return cval(o.data[c]);
  u64 lim = o.size - c * 8; if (lim < 8 && (m | (uint8_t)(0xFF << lim)) == 0xFF) return cval(o.data[c] & maskw(lim * 8));
  if (!m) { u32 g = newGarbage(64); needSym(o); o.sym[c] = g; return Val{0, g}; }
  // mixed: build byte by byte
  Val r{}; unsigned w = 0;
  for (int i = 0; i < 8; i++) { Val b = (m >> i & 1) ? cval((o.data[c] >> (8 * i)) & 0xFF) : Val{0, newGarbage(8)}; if (i == 0) { r = b; w = 8; } else { r = mkConcat(b, 8, r, w); w += 8; } }
  if (r.s) { needSym(o); o.sym[c] = r.s; } return r;
}
static Val loadScalar(Obj &o, u64 off, unsigned bytes) {
  u64 c = off >> 3; unsigned sh8 = off & 7;
  if (bytes == 8 && sh8 == 0) {
    if (o.sym && o.sym[c]) return rs(Val{0, o.sym[c]});
    if (o.init[c] == 0xFF) return cval(o.data[c]);
    return cellVal(o, c);
  }
  if (sh8 + bytes <= 8) {
    if (!(o.sym && o.sym[c])) {
      uint8_t need = (uint8_t)(((1u << bytes) - 1) << sh8);
      if ((o.init[c] & need) == need) return cval((o.data[c] >> (8 * sh8)) & maskw(bytes * 8));
      if ((o.init[c] & need) == 0) return Val{0, newGarbage(bytes * 8)};
    }
    return mkExtract(cellVal(o, c), 64, sh8 * 8, bytes * 8);
  }
  unsigned n1 = 8 - sh8; Val lo = loadScalar(o, off, n1), hi = loadScalar(o, off + n1, bytes - n1);
  return mkConcat(hi, (bytes - n1) * 8, lo, n1 * 8);
}
static void storeScalar(Obj &o, u64 off, unsigned bytes, Val v) {
  u64 c = off >> 3; unsigned sh8 = off & 7;
  if (bytes == 8 && sh8 == 0) {
    if (v.s) { needSym(o); o.sym[c] = v.s; o.init[c] = 0xFF; } else { o.data[c] = v.v; o.init[c] = 0xFF; if (o.sym) o.sym[c] = 0; }
    return;
  }
  if (sh8 + bytes <= 8) {
    uint8_t bm = (uint8_t)(((1u << bytes) - 1) << sh8); u64 dm = maskw(bytes * 8) << (8 * sh8);
    if (!v.s && !(o.sym && o.sym[c])) { o.data[c] = (o.data[c] & ~dm) | (v.v << (8 * sh8)); o.init[c] |= bm; return; }
    Val old = cellVal(o, c); Val r; unsigned w = 0; r = cval(0);
    if (sh8) { r = mkExtract(old, 64, 0, sh8 * 8); w = sh8 * 8; }
    r = w ? mkConcat(v, bytes * 8, r, w) : v; w += bytes * 8;
    if (w < 64) r = mkConcat(mkExtract(old, 64, w, 64 - w), 64 - w, r, w);
    o.init[c] = 0xFF; if (r.s) { needSym(o); o.sym[c] = r.s; } else { o.data[c] = r.v; if (o.sym) o.sym[c] = 0; }
    return;
  }
  unsigned n1 = 8 - sh8; storeScalar(o, off, n1, mkExtract(v, bytes * 8, 0, n1 * 8)); storeScalar(o, off + n1, bytes - n1, mkExtract(v, bytes * 8, n1 * 8, (bytes - n1) * 8));
}
static inline u64 addrOf(Val a, const char *why) { if (a.s) { a = rs(a); if (a.s) return concretize(a, 64, why); } return a.v; }
static Val loadAt(u64 addr, unsigned bytes) { u64 off; Obj &o = locate(addr, bytes, off, false); return loadScalar(o, off, bytes); }
static void storeAt(u64 addr, unsigned bytes, Val v) { u64 off; Obj &o = locate(addr, bytes, off, true); storeScalar(o, off, bytes, v); }
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n || d == s) return; u64 so, dof; Obj *S = &locate(s, n, so, false); Obj *D = &locate(d, n, dof, true); S = &objs[s >> SH];
  if (((so ^ dof) & 7) == 0) {
    // same phase: copy cells, keep symbols and initialisation state
    bool back = S == D && dof > so;
    auto one = [&](u64 i, unsigned nb) {
      u64 sc = (so + i) >> 3, dc = (dof + i) >> 3; unsigned ph = (so + i) & 7;
      if (nb == 8 && ph == 0) {
        D->data[dc] = S->data[sc]; D->init[dc] = S->init[sc]; u32 ss = S->sym ? S->sym[sc] : 0; if (ss) { needSym(*D); D->sym[dc] = ss; } else if (D->sym) D->sym[dc] = 0; return; }
      for (unsigned j = 0; j < nb; j++) { unsigned p = ph + j; 
        if (!(S->sym && S->sym[sc]) && !(S->init[sc] >> p & 1)) { if (!(D->sym && D->sym[dc])) { D->init[dc] &= ~(1 << p); continue; } }
        Val b = loadScalar(*S, sc * 8 + p, 1); storeScalar(*D, dc * 8 + p, 1, b); } };
    // partial symbolic cells: go wider than bytes where possible
    std::vector<std::pair<u64, unsigned>> segs; u64 i = 0;
    while (i < n) { unsigned ph = (so + i) & 7; unsigned nb = std::min<u64>(8 - ph, n - i); segs.push_back({i, nb}); i += nb; }
    if (!back) for (auto &p : segs) one(p.first, p.second); else for (auto it = segs.rbegin(); it != segs.rend(); ++it) one(it->first, it->second);
    return;
  }
  std::vector<Val> tmp(n); for (u64 i = 0; i < n; i++) tmp[i] = loadScalar(*S, so + i, 1);
  for (u64 i = 0; i < n; i++) storeScalar(*D, dof + i, 1, tmp[i]);
}
static void setMem(u64 d, Val b, u64 n) {
  if (!n) return; u64 off; Obj &o = locate(d, n, off, true); b = rs(b);
  if (!b.s) { u64 pat = (b.v & 0xFF) * 0x0101010101010101ull; u64 i = 0; while (i < n) { if (((off + i) & 7) == 0 && n - i >= 8) { u64 c = (off + i) >> 3; o.data[c] = pat; o.init[c] = 0xFF; if (o.sym) o.sym[c] = 0; i += 8; } else { storeScalar(o, off + i, 1, cval(b.v & 0xFF)); i++; } } return; }
  for (u64 i = 0; i < n; i++) storeScalar(o, off + i, 1, b);
}
static std::string readStr(u64 a) { std::string s; for (int i = 0; i < 4096; i++) { Val b = loadAt(a + i, 1); u64 c = concretize(b, 8, "string byte"); if (!c) break; s += (char)c; } return s; }

// ------------------------------------------------------------------ constants and globals
static std::map<const GlobalValue *, u64> gaddr;
static unsigned ncomp(Type *T) {
  if (T->isVoidTy()) return 0;
  if (auto *S = dyn_cast<StructType>(T)) { unsigned n = 0; for (Type *e : S->elements()) n += ncomp(e); return n; }
  if (auto *A = dyn_cast<ArrayType>(T)) return A->getNumElements() * ncomp(A->getElementType());
  if (auto *V = dyn_cast<FixedVectorType>(T)) return V->getNumElements();
  return 1;
}
static unsigned widthOf(Type *T) { if (T->isIntegerTy()) return T->getIntegerBitWidth(); if (T->isPointerTy()) return 64; if (T->isDoubleTy()) return 64; if (T->isFloatTy()) return 32; if (auto *V = dyn_cast<FixedVectorType>(T)) return widthOf(V->getElementType()); return 0; }
static bool isFPs(Type *T) { return T->getScalarType()->isFloatingPointTy(); }
static void compOffsets(Type *T, u64 base, std::vector<std::pair<u64, Type *>> &out) {
  if (auto *S = dyn_cast<StructType>(T)) { const StructLayout *L = DL->getStructLayout(S); for (unsigned i = 0; i < S->getNumElements(); i++) compOffsets(S->getElementType(i), base + L->getElementOffset(i), out); return; }
  if (auto *A = dyn_cast<ArrayType>(T)) { u64 es = DL->getTypeAllocSize(A->getElementType()); for (u64 i = 0; i < A->getNumElements(); i++) compOffsets(A->getElementType(), base + i * es, out); return; }
  if (auto *V = dyn_cast<FixedVectorType>(T)) { u64 bits = DL->getTypeSizeInBits(V->getElementType()); for (u64 i = 0; i < V->getNumElements(); i++) out.push_back({base + i * bits / 8, V->getElementType()}); return; }
  out.push_back({base, T});
}
static DFunc *getD(Function *F);
static u64 addrOfGlobal(const GlobalValue *G) {
  if (auto *GA = dyn_cast<GlobalAlias>(G)) return addrOfGlobal(cast<GlobalValue>(GA->getAliasee()->stripPointerCasts()));
  auto it = gaddr.find(G); if (it != gaddr.end()) return it->second;
  if (auto *F = dyn_cast<Function>(G)) { return getD(const_cast<Function *>(F))->addr; }
  engineError("no address for global " + G->getName().str());
}
static void flatten(const Constant *C, std::vector<Val> &out);
static Val constScalar(const Constant *C) {
  if (auto *CI = dyn_cast<ConstantInt>(C)) { if (CI->getBitWidth() > 64) { return cval(CI->getValue().trunc(64).getZExtValue()); } return cval(CI->getZExtValue()); }
  if (auto *CF = dyn_cast<ConstantFP>(C)) { if (CF->getType()->isDoubleTy() || CF->getType()->isFloatTy()) return cval(CF->getValueAPF().bitcastToAPInt().getZExtValue()); return cval(0); }
  if (isa<ConstantPointerNull>(C)) return cval(0);
  if (isa<UndefValue>(C)) { return Val{0, newGarbage(std::max(1u, widthOf(C->getType())))}; }
  if (auto *G = dyn_cast<GlobalValue>(C)) return cval(addrOfGlobal(G));
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    switch (CE->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); auto *GO = cast<GEPOperator>(CE); if (!GO->accumulateConstantOffset(*DL, off)) engineError("constant gep"); Val b = constScalar(CE->getOperand(0)); return cval(b.v + off.getSExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: return constScalar(CE->getOperand(0));
    case Instruction::Trunc: return cval(constScalar(CE->getOperand(0)).v & maskw(widthOf(CE->getType())));
    case Instruction::Sub: return cval((constScalar(CE->getOperand(0)).v - constScalar(CE->getOperand(1)).v) & maskw(widthOf(CE->getType())));
    case Instruction::Add: return cval((constScalar(CE->getOperand(0)).v + constScalar(CE->getOperand(1)).v) & maskw(widthOf(CE->getType())));
    default: engineError(std::string("constant expression ") + CE->getOpcodeName());
    }
  }
  engineError("constant");
}
static void flatten(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (isa<ConstantAggregateZero>(C)) { unsigned n = ncomp(T); for (unsigned i = 0; i < n; i++) out.push_back(cval(0)); return; }
  if (T->isAggregateType() || T->isVectorTy()) {
    if (isa<UndefValue>(C)) { std::vector<std::pair<u64, Type *>> co; compOffsets(T, 0, co); for (auto &p : co) out.push_back(Val{0, newGarbage(std::max(1u, widthOf(p.second)))}); return; }
    if (auto *CD = dyn_cast<ConstantDataSequential>(C)) { for (unsigned i = 0; i < CD->getNumElements(); i++) out.push_back(constScalar(CD->getElementAsConstant(i))); return; }
    if (auto *CA = dyn_cast<ConstantAggregate>(C)) { for (unsigned i = 0; i < CA->getNumOperands(); i++) flatten(CA->getOperand(i), out); return; }
    engineError("aggregate constant");
  }
  out.push_back(constScalar(C));
}
static u64 fnId;
static void storeConst(u64 base, const Constant *C) {
  std::vector<std::pair<u64, Type *>> co; compOffsets(C->getType(), 0, co); std::vector<Val> v; flatten(C, v);
  u64 off; Obj &o = objs[base >> SH]; (void)off;
  for (size_t i = 0; i < co.size(); i++) { unsigned b = DL->getTypeStoreSize(co[i].second); if (b > 8) continue; if (v[i].s) continue; storeScalar(o, base - o.base + co[i].first, b, v[i]); }
}
static DFunc *getD(Function *F) {
  auto it = dfuncs.find(F); if (it != dfuncs.end()) return it->second;
  DFunc *d = new DFunc; d->F = F; d->name = F->getName().str(); d->addr = (fnId << SH) + 0x1000000 + 16 * (u64)dfv.size(); dfv.push_back(d); dfuncs[F] = d; return d;
}
#include "interp.inc"
