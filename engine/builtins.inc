// Builtins: C and C++ runtime, LLVM intrinsics, OpenMP runtime, the harness interface; and main().
#define B(NAME) [](const CallI &ci, const DI &di, Val *a, Val *ret) 
static void reg(const std::string &n, BFn f) { biIdx[n] = builtins.size(); builtins.push_back({n, f}); }
static u64 A_(Val v, const char *why = "argument") { return addrOf(v, why); }
static int argOff(const CallI &ci, int i) { int p = 0; for (int k = 0; k < i; k++) p += ci.argn[k]; return p; }

// ---- batched equality assertions
struct EqA { Val a, b; u32 msg; u64 idx; };
static std::vector<EqA> pend; static std::vector<std::string> msgs; static std::map<std::string, u32> msgIdx;
static bool eqsPendingEmpty() { return pend.empty(); }
static u32 msgId(const std::string &s) { auto it = msgIdx.find(s); if (it != msgIdx.end()) return it->second; u32 k = msgs.size(); msgs.push_back(s); return msgIdx[s] = k; }
static u64 batchMax = 4096; static int fillScale = 0;
static u64 rngS = 88172645463325252ull; static u64 rng() { rngS ^= rngS << 13; rngS ^= rngS >> 7; rngS ^= rngS << 17; return rngS; }
static double rndF(const VarInfo &v) { double lim = std::min(v.mx, 97.0); return std::ldexp((double)((int64_t)(rng() % (u64)(2 * std::ldexp(lim, v.scale) + 1)) - (int64_t)std::ldexp(lim, v.scale)), -v.scale); }
static double rndLarge(const VarInfo &v) { u64 lim = (u64)std::ldexp(v.mx, v.scale); if (!lim) return 0; return std::ldexp((double)((int64_t)((rng() % lim) | 1)), -v.scale); }
// a model of the path condition; data the path condition does not constrain gets arbitrary values
static void genericModel(Model &m) {
  if (checkWith(nullptr, &m) != SAT) { m.bv.clear(); m.fv.clear(); return; } m.bv.resize(vars.size()); m.fv.resize(vars.size());
  for (auto &c : pathCond) if (N_[c.s].fl & FL_HASF) return;
  rngS ^= instrCount * 0x9E3779B97F4A7C15ull; rng(); for (size_t i = 0; i < vars.size(); i++) if (vars[i].isF) m.fv[i] = rndF(vars[i]);
}
static bool randomCex(const std::vector<EqA> &v, Model &m, size_t &which) {
  if (!pathCond.empty()) for (auto &c : pathCond) if (N_[c.s].fl & FL_HASF) return false;
  Model base; if (lastModel.ok) base = lastModel; else if (checkWith(nullptr, &base) != SAT) return false;
  for (int t = 0; t < 8; t++) {
    Eval e; e.bv = base.bv; e.bv.resize(vars.size()); e.fv.assign(vars.size(), 0);
    for (size_t i = 0; i < vars.size(); i++) if (vars[i].isF) e.fv[i] = rndF(vars[i]);
    for (size_t k = 0; k < v.size(); k++) { double x = v[k].a.s ? b2d(e.ev(v[k].a.s)) : b2d(v[k].a.v), y = v[k].b.s ? b2d(e.ev(v[k].b.s)) : b2d(v[k].b.v); if (x != y) { m.bv = e.bv; m.fv = e.fv; m.ok = true; which = k; return true; } }
  }
  return false;
}
static void flushEqs() {
  if (pend.empty()) return; std::vector<EqA> v; v.swap(pend);
  for (size_t s0 = 0; s0 < v.size(); s0 += batchMax) {
    std::vector<EqA> part(v.begin() + s0, v.begin() + std::min(v.size(), s0 + batchMax)); bool real = false; int inex = -1;
    for (auto &e : part) { for (Val x : {e.a, e.b}) if (x.s) { if (N_[x.s].fl & FL_INEXACT) inex = e.msg; if (N_[x.s].fl & FL_NONINT) real = true; } else { double d = b2d(x.v); if (d != std::floor(d)) real = true; } }
    Model m; R r = UNK; size_t which = 0; bool bad = false;
    if (inex < 0) { std::vector<Z3_ast> ds; for (auto &e : part) ds.push_back(Z3_mk_not(zc, Z3_mk_eq(zc, zF(e.a, real), zF(e.b, real))));
      Z3_ast dis = ds.size() == 1 ? ds[0] : Z3_mk_or(zc, ds.size(), ds.data()); r = checkWith(dis, &m); }
    if (r == SAT) {
      Eval e; e.bv = m.bv; e.bv.resize(vars.size()); e.fv = m.fv; e.fv.resize(vars.size()); bad = true;
      for (size_t k = 0; k < part.size(); k++) { double x = part[k].a.s ? b2d(e.ev(part[k].a.s)) : b2d(part[k].a.v), y = part[k].b.s ? b2d(e.ev(part[k].b.s)) : b2d(part[k].b.v); if (x != y) { which = k; break; } }
      Model m2; size_t w2; if (randomCex(part, m2, w2)) { m = m2; which = w2; } // prefer a generic witness (non-zero data) for the replay
    } else if (r == UNK) { if (randomCex(part, m, which)) bad = true; else engineError(inex >= 0 ? "rounding could occur within the stated value bounds (|value| > 2^53 units): " + msgs[inex] : "solver gave no answer on an equality batch: " + msgs[part[0].msg]); }
    sh->eqs += part.size(); locAsserts += part.size(); sh->symAsserts += part.size();
    if (bad) { pend.clear(); recordViolation("assert", msgs[part[which].msg] + " (element " + std::to_string(part[which].idx) + ": got " + pp(part[which].a, WF, 7).substr(0, 300) + ", expected " + pp(part[which].b, WF, 7).substr(0, 300) + ")", m); sh->paths++; finishProcess(); }
  }
}
static void addEq(Val x, Val y, const std::string &msg, u64 idx) {
  x = toF(rs(x)); y = toF(rs(y)); if (tainted(x) || tainted(y)) violation("uninitialised", msg + " (element " + std::to_string(idx) + " depends on uninitialised memory: " + pp(tainted(x) ? x : y, WF).substr(0, 300) + ")");
  if (!x.s && !y.s) { locAsserts++; if (b2d(x.v) != b2d(y.v)) violation("assert", msg + " (element " + std::to_string(idx) + ": got " + pp(x, WF) + ", expected " + pp(y, WF) + ")"); return; }
  static u64 same = 0; if (x.s == y.s && x.s && ++same > 8192) { locAsserts++; sh->symAsserts++; return; } // the same term; the first 8192 of a path still go to the solver
  pend.push_back({x, y, msgId(msg), idx}); if (pend.size() >= batchMax) flushEqs();
}
static void assertTrue(Val c, const std::string &msg) {
  c = rs(c); locAsserts++; if (!c.s) { if (!(c.v & 1)) violation("assert", msg); return; }
  sh->symAsserts++;
  if (tainted(c)) violation("uninitialised", msg + " depends on uninitialised memory");
  Model m; R r = checkWith(zBoolV(notV(c)), &m); if (r == UNSAT) return; if (r == UNK) engineError("solver gave no answer on: " + msg);
  recordViolation("assert", msg, m); addPC(c); if (checkWith(nullptr, nullptr) != SAT) { sh->paths++; finishProcess(); }
}
// ---- exceptions raised by the library
static std::map<std::string, u64> extTI; 
static u64 tiAddr(const std::string &n) { if (auto *G = M->getNamedGlobal(n)) return addrOfGlobal(G); auto it = extTI.find(n); if (it != extTI.end()) return it->second; u64 a = allocObj(16, 8, K_GLOBAL, "typeinfo"); tiName[a] = n; return extTI[n] = a; }
static u64 fnAddr(const std::string &n) { static std::map<std::string, u64> m; auto it = m.find(n); if (it != m.end()) return it->second; DFunc *d = new DFunc; d->F = nullptr; d->name = n; d->bi = lookupBuiltin(n); d->addr = (fnId << SH) + 0x1000000 + 16 * (u64)dfv.size(); dfv.push_back(d); return m[n] = d->addr; }
static u64 cstr(const std::string &s) { u64 a = allocObj(s.size() + 1, 1, K_GLOBAL, "string"); for (size_t i = 0; i <= s.size(); i++) storeAt(a + i, 1, cval(i < s.size() ? (uint8_t)s[i] : 0)); return a; }
static void throwStd(const std::string &ti, const std::string &what) {
  static u64 vt = 0; if (!vt) { raceExempt++; vt = allocObj(40, 8, K_GLOBAL, "vtable"); storeAt(vt, 8, cval(0)); storeAt(vt + 8, 8, cval(0)); storeAt(vt + 16, 8, cval(fnAddr("vf.dtor"))); storeAt(vt + 24, 8, cval(fnAddr("vf.dtor"))); storeAt(vt + 32, 8, cval(fnAddr("vf.what"))); raceExempt--; }
  raceExempt++; u64 o = allocObj(16, 16, K_ALIGNED, "exception"); storeAt(o, 8, cval(vt + 16)); storeAt(o + 8, 8, cval(cstr(what))); raceExempt--;
  excs[o] = Exc{o, tiAddr(ti), 0, 0}; unwindingExc = o; wantUnwind = true;
}
static void doFree(u64 p, int want) {
  if (!p) return; u64 id = p >> SH; if (id >= objs.size()) violation("memory", "free of a wild pointer");
  Obj &o = objs[id]; if (!o.alive) violation("memory", "double free"); if (p != o.base) violation("memory", "free of a pointer into the middle of an object");
  bool ok = (want == K_HEAP && (o.kind == K_HEAP || o.kind == K_ALIGNED)) || (want == K_NEW && (o.kind == K_NEW)) || (want == K_NEWARR && o.kind == K_NEWARR) || (want == K_ALIGNED && o.kind == K_ALIGNED);
  if (!ok) violation("memory", "deallocation with a function that does not match the allocation");
  killObj(id);
}
static u64 doMalloc(Val sz, u64 al, int kind, const char *w) { u64 n = concretize(sz, 64, "allocation size"); if (n > (1ull << 33)) { return 0; } return allocObj(n, al, kind, w); }
static void cmpMem(Val *a, Val *ret, bool str, u64 most = ~0ull) {
  u64 p = A_(a[0]), q = A_(a[1]); u64 n = str ? most : concretize(a[2], 64, "memcmp length");
  // symbolic bytes: one expression for the result, where the length is fixed and everything compared can be read
  { auto fits = [](u64 p, u64 n) { u64 id = p >> SH; return id < objs.size() && objs[id].alive && p >= objs[id].base && p - objs[id].base + n <= objs[id].size; };
    u64 m = n; if (str) { m = 0; for (u64 i = 0; i < 64 && i < n && !m && fits(p, i + 1) && fits(q, i + 1); i++) { Val x = rs(loadAt(p + i, 1)), y = rs(loadAt(q + i, 1)); if ((!x.s && !(x.v & 255)) || (!y.s && !(y.v & 255))) m = i + 1; else if (!x.s && !y.s && x.v != y.v) m = i + 1; else if (i + 1 == n) m = n; } }
    bool sym = false, ok = m > 0 && m <= 64 && fits(p, m) && fits(q, m);
    for (u64 i = 0; ok && i < m; i++) for (u64 o : {p, q}) { Val x = rs(loadAt(o + i, 1)); if (x.s) { sym = true; if ((N_[x.s].fl & FL_HASF) || tainted(x)) ok = false; } }
    if (ok && sym) { Val r = cval(0); for (u64 i = m; i-- > 0;) { Val x = rs(loadAt(p + i, 1)), y = rs(loadAt(q + i, 1)); Val next = r; if (str) next = mkIte(mkBin(O_EQ, x, cval(0), 8), cval(0), r, 32, false); r = mkIte(mkBin(O_EQ, x, y, 8), next, mkIte(mkBin(O_ULT, x, y, 8), cval(0xFFFFFFFFu), cval(1), 32, false), 32, false); } ret[0] = r; return; } }
  for (u64 i = 0; i < n; i++) { u64 x = concretize(loadAt(p + i, 1), 8, "compared byte"), y = concretize(loadAt(q + i, 1), 8, "compared byte"); if (x != y) { ret[0] = cval(x < y ? 0xFFFFFFFFu : 1); return; } if (str && !x) break; }
  ret[0] = cval(0);
}
// ---- OpenMP
static int ompThreads = 3; static int ompSet = 0, ompPush = 0; static int curTid = 0, teamSize = 1, parDepth = 0; static u64 tick = 0;
struct Team { int n; std::vector<Thread> th; }; 
struct Disp { u64 lb, ub; int64_t st; u64 chunk; u64 next; bool fin; }; static std::map<int, Disp> disp; static std::map<u64, Disp> dispShared; static u64 dispGen = 0; static std::map<int, u64> dispPos;
static std::map<std::pair<u64, int>, u64> dispGiven;
static void staticInit(Val *a, unsigned w, bool sgn) {
  u64 sched = concretize(a[2], 32, "schedule"); u64 pl = A_(a[3]), plo = A_(a[4]), pup = A_(a[5]), pst = A_(a[6]); unsigned by = w / 8;
  int64_t incr = sx(concretize(a[7], w, "increment"), w), chunk = sx(concretize(a[8], w, "chunk"), w);
  u64 lo0 = concretize(loadAt(plo, by), w, "loop bound"), up0 = concretize(loadAt(pup, by), w, "loop bound"); int64_t lo = sgn ? sx(lo0, w) : (int64_t)lo0, up = sgn ? sx(up0, w) : (int64_t)up0;
  u64 trip = incr > 0 ? (up < lo ? 0 : (u64)(up - lo) / incr + 1) : (lo < up ? 0 : (u64)(lo - up) / (u64)(-incr) + 1); int T = teamSize, id = curTid; u64 m = maskw(w);
  sched &= 0xFF; 
  if (sched == 33) { // static, chunked
    if (chunk < 1) chunk = 1; int64_t span = chunk * incr; storeAt(pst, by, cval((u64)(span * T) & m)); int64_t l = lo + span * id; storeAt(plo, by, cval((u64)l & m)); storeAt(pup, by, cval((u64)(l + span - incr) & m)); storeAt(pl, 4, cval(trip && (u64)id == ((trip - 1) / chunk) % T)); return; }
  storeAt(pst, by, cval(trip & m));
  if (trip == 0) { storeAt(pl, 4, cval(0)); return; }
  u64 ch = trip / T, ex = trip % T; u64 b = id * ch + std::min<u64>(id, ex), n = ch + ((u64)id < ex);
  if (n == 0) { storeAt(plo, by, cval((u64)(up + incr) & m)); storeAt(pup, by, cval((u64)up & m)); storeAt(pl, 4, cval(0)); return; }
  storeAt(plo, by, cval((u64)(lo + (int64_t)b * incr) & m)); storeAt(pup, by, cval((u64)(lo + (int64_t)(b + n - 1) * incr) & m)); storeAt(pl, 4, cval(b + n == trip));
}
static void dispInit(Val *a, unsigned w, bool sgn) {
  Disp d; d.lb = concretize(a[3], w, "bound"); d.ub = concretize(a[4], w, "bound"); d.st = sx(concretize(a[5], w, "stride"), w); d.chunk = std::max<u64>(1, concretize(a[6], w, "chunk")); d.fin = false;
  if (sgn) { d.lb = sx(d.lb, w); d.ub = sx(d.ub, w); } d.next = 0; u64 g = dispPos[curTid]++; if (!dispShared.count(g)) dispShared[g] = d; 
}
static void dispNext(Val *a, Val *ret, unsigned w, bool sgn) { // every chunk goes to the asking thread; iterations of a dynamic loop still race-check through separate tasks per thread
  u64 g = dispPos[curTid] - 1; Disp &d = dispShared[g]; int64_t lo = d.lb, up = d.ub; u64 trip = d.st > 0 ? (up < lo ? 0 : (u64)(up - lo) / d.st + 1) : (lo < up ? 0 : (u64)(lo - up) / (u64)(-d.st) + 1); (void)sgn;
  u64 share = (trip + teamSize - 1) / teamSize; u64 &gv = dispGiven[{g, curTid}]; 
  if (d.next >= trip || gv >= share) { ret[0] = cval(0); return; }
  u64 n = std::min(d.chunk, trip - d.next); unsigned by = w / 8; u64 m = maskw(w); storeAt(A_(a[2]), 4, cval(d.next + n == trip)); storeAt(A_(a[3]), by, cval((u64)(lo + (int64_t)d.next * d.st) & m)); storeAt(A_(a[4]), by, cval((u64)(lo + (int64_t)(d.next + n - 1) * d.st) & m)); storeAt(A_(a[5]), by, cval((u64)d.st & m)); d.next += n; gv += n; ret[0] = cval(1);
}
static void forkCall(const CallI &ci, Val *a) {
  u64 fn = A_(a[2]); DFunc *d = funcAt(fn); if (!d) engineError("microtask"); int T = parDepth ? 1 : ompPush ? ompPush : ompSet ? ompSet : ompThreads; ompPush = 0;
  int sTid = curTid, sTeam = teamSize; u32 sTask = curTask; parDepth++; teamSize = T; dispShared.clear(); dispPos.clear(); dispGiven.clear();
  std::vector<Thread> th(T); std::vector<u32> tasks(T); std::vector<u64> gt(T); int done = 0; std::vector<char> fin(T, 0);
  for (int i = 0; i < T; i++) { tasks[i] = T > 1 ? taskFork() : 0; }
  for (int i = 0; i < T; i++) { raceExempt++; gt[i] = allocObj(8, 8, K_STACK, "gtid"); storeAt(gt[i], 4, cval(i)); storeAt(gt[i] + 4, 4, cval(i)); raceExempt--; std::vector<Val> av{cval(gt[i]), cval(gt[i] + 4)}; for (size_t k = 3; k < ci.args.size(); k++) av.push_back(a[argOff(ci, k)]); decode(d); pushFrame(th[i], d, av.data(), av.size(), -1, 0); th[i].tid = i; }
  while (done < T) {
    std::vector<u32> jv; 
    for (int i = 0; i < T; i++) if (!fin[i]) {
      curTid = i; if (T > 1) curTask = tasks[i]; RunR r = run(th[i], 0); if (r == UNWIND) violation("terminate", "exception leaves a parallel region"); if (r == DONE) { fin[i] = 1; done++; } }
    if (T > 1) { for (int i = 0; i < T; i++) vjoin(jv, VC[tasks[i]]); for (int i = 0; i < T; i++) if (!fin[i]) { vjoin(VC[tasks[i]], jv); VC[tasks[i]][tasks[i]]++; } }
  }
  curTask = sTask; curTid = sTid; teamSize = sTeam; parDepth--; wantBarrier = false;
  for (int i = 0; i < T; i++) { if (T > 1) taskJoin(tasks[i]); killObj(gt[i] >> SH); }
}
// Taint is decided, not assumed: does the condition really vary with the uninitialised bits?
static void collectG(u32 s, std::vector<u32> &out) { std::vector<u32> st{s}; std::set<u32> seen; while (!st.empty()) { u32 x = st.back(); st.pop_back(); if (!x || !seen.insert(x).second) continue; Node &n = N_[x]; if (!(n.fl & FL_TAINT)) continue; if (n.op == O_GARB || n.op == O_UNBITS || n.op == O_BITS) { out.push_back(x); if (n.op == O_GARB) continue; } if (n.op == O_CONST || n.op == O_FCONST) continue; st.push_back(n.a); if (n.b) st.push_back(n.b); if (n.c) st.push_back(n.c); } }
static bool dependsOnGarbage(Val c) {
  std::vector<u32> g; collectG(c.s, g); bool b1 = N_[c.s].w == 1; Z3_ast e = b1 ? zBool(c.s) : zBV(c.s, 0); std::vector<Z3_ast> from, to;
  for (u32 x : g) { if (N_[x].w == WF) { for (bool real : {false, true}) { Z3_ast o = zF(Val{0, x}, real); from.push_back(o); to.push_back(Z3_mk_fresh_const(zc, "gg", Z3_get_sort(zc, o))); } } else { Z3_ast o = zBV(x, 0); from.push_back(o); to.push_back(Z3_mk_fresh_const(zc, "gg", Z3_get_sort(zc, o))); } }
  Z3_ast e2 = Z3_substitute(zc, e, from.size(), from.data(), to.data()); return checkWith(b1 ? Z3_mk_xor(zc, e, e2) : Z3_mk_not(zc, Z3_mk_eq(zc, e, e2)), nullptr) != UNSAT;
}
static bool taintReal(Val c) { return dependsOnGarbage(c); }

static double math1(const std::string &n, double d) { return n == "fabs" ? std::fabs(d) : n == "floor" ? std::floor(d) : n == "ceil" ? std::ceil(d) : n == "sqrt" ? std::sqrt(d) : n == "trunc" ? std::trunc(d) : n == "rint" || n == "nearbyint" || n == "roundeven" ? std::nearbyint(d) : n == "round" ? std::round(d) : n == "log" ? std::log(d) : n == "log2" ? std::log2(d) : n == "log10" ? std::log10(d) : n == "exp" ? std::exp(d) : n == "exp2" ? std::exp2(d) : d; }
static double math2(const std::string &n, double a, double b) { return n == "minnum" ? std::fmin(a, b) : n == "maxnum" ? std::fmax(a, b) : n == "copysign" ? std::copysign(a, b) : n == "fmod" ? std::fmod(a, b) : std::pow(a, b); }
// functions of one or two arguments without a symbolic form: matrix data takes the values of its witness from here on
static bool plain(const std::string &n, Val &a, unsigned w, Val &r) { a = rs(a); if (a.s) { if (tainted(a)) { r = Val{0, newGarbage(w)}; return false; } pinData("symbolic argument of " + n); a = rs(a); } return true; }
static Val fop1(const std::string &n, Val a) { a = rs(a); if (a.s && n == "fabs") return mkF(O_FABS, a, cval(0)); Val r; if (!plain(n, a, 64, r)) return r; return cval(d2b(math1(n, b2d(a.v)))); }
static Val fop1f(const std::string &n, Val a) { Val r; if (!plain(n, a, 32, r)) return r; return cval(f2b((float)math1(n, b2f(a.v)))); }
static Val fop2(const std::string &n, Val a, Val b) { Val r; if (!plain(n, a, 64, r) || !plain(n, b, 64, r)) return r; a = rs(a); return cval(d2b(math2(n, b2d(a.v), b2d(b.v)))); }
static Val fop2f(const std::string &n, Val a, Val b) { Val r; if (!plain(n, a, 32, r) || !plain(n, b, 32, r)) return r; a = rs(a); return cval(f2b((float)math2(n, b2f(a.v), b2f(b.v)))); }
template <class F> static void lanes(const CallI &ci, int n, Val *a, Val *ret, F f) { (void)ci; for (int i = 0; i < n; i++) ret[i] = f(i); }
static Val ovf(int op, Val a, Val b, unsigned w) {
  switch (op) {
  case 0: return mkBin(O_UADDO, a, b, w); case 1: return mkBin(O_ULT, a, b, w); case 2: return mkBin(O_UMULO, a, b, w);
  }
  a = rs(a); b = rs(b); if (w > 32 && (a.s || b.s)) { // signed, 64 bit
    if (op == 5) engineError("signed multiplication overflow on symbolic 64-bit values"); Val r = mkBin(op == 3 ? O_ADD : O_SUB, a, b, w); Val sa = mkBin(O_SLT, a, cval(0), w), sb = mkBin(O_SLT, b, cval(0), w), sr = mkBin(O_SLT, r, cval(0), w); if (op == 4) sb = notV(sb); return mkBin(O_AND, notV(mkBin(O_XOR, sa, sb, 1)), mkBin(O_XOR, sa, sr, 1), 1); }
  if (!a.s && !b.s) { __int128 x = sx(a.v, w), y = sx(b.v, w), r = op == 3 ? x + y : op == 4 ? x - y : x * y; return cval(r != (__int128)sx((u64)r & maskw(w), w)); }
  Val x = mkSext(a, w, 2 * w), y = mkSext(b, w, 2 * w), r = mkBin(op == 3 ? O_ADD : op == 4 ? O_SUB : O_MUL, x, y, 2 * w); return notV(mkBin(O_EQ, r, mkSext(mkExtract(r, 2 * w, 0, w), w, 2 * w), 2 * w));
}
static u64 randCtr = 0;
static std::string randName() { return "rand" + std::to_string(randCtr++); }
static void uninit(u64 p, u64 n) { u64 id = p >> SH; if (id >= objs.size() || !objs[id].alive) return; Obj &o = objs[id]; u64 off = p - o.base; if (n == ~0ull || off + n > o.size) n = o.size - off; u64 e = off + n; for (u64 c = off >> 3; c * 8 < e; c++) { u64 lo = c * 8; if (lo >= off && (lo + 8 <= e || e == o.size)) { o.init[c] = 0; if (o.sym) o.sym[c] = 0; } else { if (o.sym && o.sym[c]) continue; for (int i = 0; i < 8; i++) if (lo + i >= off && lo + i < e) o.init[c] &= ~(1 << i); } } if (o.shw) { free(o.shw); o.shw = nullptr; } }
static double fvarMax = 0;

static void regAll() {
#define DEF(NAME, ...) reg(NAME, [](const CallI &ci, const DI &di, Val *a, Val *ret) { (void)ci; (void)di; (void)a; (void)ret; __VA_ARGS__ });
#define NOP(NAME) DEF(NAME, )
  // memory
  DEF("malloc", ret[0] = cval(doMalloc(a[0], 16, K_HEAP, "malloc"));) DEF("calloc", u64 n = concretize(a[0], 64, "size") * concretize(a[1], 64, "size"); u64 p = doMalloc(cval(n), 16, K_HEAP, "calloc"); setMem(p, cval(0), n); ret[0] = cval(p);)
  DEF("free", doFree(A_(a[0]), K_HEAP);)
  DEF("_Znwm", u64 p = doMalloc(a[0], 16, K_NEW, "new"); if (!p) throwStd("_ZTISt9bad_alloc", "std::bad_alloc"); ret[0] = cval(p);) DEF("_Znam", u64 p = doMalloc(a[0], 16, K_NEWARR, "new[]"); if (!p) throwStd("_ZTISt9bad_alloc", "std::bad_alloc"); ret[0] = cval(p);)
  DEF("_ZdlPv", doFree(A_(a[0]), K_NEW);) DEF("_ZdlPvm", doFree(A_(a[0]), K_NEW);) DEF("_ZdaPv", doFree(A_(a[0]), K_NEWARR);) DEF("_ZdaPvm", doFree(A_(a[0]), K_NEWARR);)
  DEF("_ZnwmSt11align_val_t", ret[0] = cval(doMalloc(a[0], A_(a[1]), K_ALIGNED, "aligned new"));) DEF("_ZnamSt11align_val_t", ret[0] = cval(doMalloc(a[0], A_(a[1]), K_ALIGNED, "aligned new[]"));)
  DEF("_ZdlPvSt11align_val_t", doFree(A_(a[0]), K_ALIGNED);) DEF("_ZdlPvmSt11align_val_t", doFree(A_(a[0]), K_ALIGNED);) DEF("_ZdaPvSt11align_val_t", doFree(A_(a[0]), K_ALIGNED);)
  DEF("posix_memalign", u64 al = A_(a[1]); if (al < 8 || (al & (al - 1))) { ret[0] = cval(22); return; } u64 p = doMalloc(a[2], al, K_ALIGNED, "posix_memalign"); if (!p) { ret[0] = cval(12); return; } storeAt(A_(a[0]), 8, cval(p)); ret[0] = cval(0);)
  DEF("aligned_alloc", ret[0] = cval(doMalloc(a[1], A_(a[0]), K_ALIGNED, "aligned_alloc"));) DEF("memalign", ret[0] = cval(doMalloc(a[1], A_(a[0]), K_ALIGNED, "memalign"));)
  DEF("_mm_malloc", ret[0] = cval(doMalloc(a[0], A_(a[1]), K_ALIGNED, "_mm_malloc"));) DEF("_mm_free", doFree(A_(a[0]), K_HEAP);)
#define MCPY { u64 n = concretize(a[2], 64, "copy length"); copyMem(n ? A_(a[0]) : 0, n ? A_(a[1]) : 0, n); ret[0] = a[0]; }
  DEF("memcpy", MCPY) DEF("memmove", MCPY) DEF("llvm.memcpy.p0.p0.i64", MCPY) DEF("llvm.memmove.p0.p0.i64", MCPY) DEF("llvm.memcpy.inline.p0.p0.i64", MCPY) DEF("llvm.memcpy.p0.p0.i32", MCPY)
#define MSET { u64 n = concretize(a[2], 64, "fill length"); setMem(n ? A_(a[0]) : 0, mkExtract(a[1], ci.argw[1], 0, 8), n); ret[0] = a[0]; }
  DEF("memset", MSET) DEF("llvm.memset.p0.i64", MSET)
  DEF("strlen", u64 p = A_(a[0]); u64 i = 0; for (;; i++) { Val b = rs(loadAt(p + i, 1)); if (b.s ? decide(mkBin(O_EQ, b, cval(0), 8)) : !(b.v & 255)) break; } ret[0] = cval(i);) DEF("strncmp", cmpMem(a, ret, true, concretize(a[2], 64, "length"));) DEF("memcmp", cmpMem(a, ret, false);) DEF("bcmp", cmpMem(a, ret, false);) DEF("strcmp", cmpMem(a, ret, true);)
  DEF("memchr", u64 p = A_(a[0]); u64 c = concretize(a[1], 32, "c") & 255; u64 n = concretize(a[2], 64, "n"); ret[0] = cval(0); for (u64 i = 0; i < n; i++) if (concretize(loadAt(p + i, 1), 8, "byte") == c) { ret[0] = cval(p + i); break; })
  DEF("llvm.lifetime.start.p0", uninit(A_(a[1]), sx(a[0].v, 64) < 0 ? ~0ull : a[0].v);) DEF("llvm.lifetime.end.p0", uninit(A_(a[1]), sx(a[0].v, 64) < 0 ? ~0ull : a[0].v);)
  DEF("llvm.stacksave.p0", ret[0] = cval(0);) NOP("llvm.stackrestore.p0") DEF("llvm.threadlocal.address.p0", ret[0] = a[0];) DEF("llvm.launder.invariant.group.p0", ret[0] = a[0];) DEF("llvm.strip.invariant.group.p0", ret[0] = a[0];)
  DEF("llvm.trap", violation("abort", "trap executed");) DEF("llvm.ubsantrap", u64 k = a[0].v & 255; if (k == 18) violation("memory", "index outside the bounds of an array"); else if (k == 3) violation("divide", "integer division by zero or overflow"); else violation("abort", k == 11 ? "a function ends without returning a value" : "unreachable code is reached");)
  // control
  DEF("abort", violation("abort", "abort() called");) DEF("__assert_fail", violation("abort", "assertion failed: " + readStr(A_(a[0])));) DEF("_ZSt9terminatev", violation("terminate", "std::terminate called (exception " + excName(caught.empty() ? unwindingExc : caught.back()) + ")");) DEF("__cxa_pure_virtual", violation("abort", "pure virtual call");)
  DEF("_ZSt21__glibcxx_assert_failPKciS0_S0_", violation("abort", "library assertion failed: " + readStr(A_(a[3])));)
  DEF("__cxa_atexit", ret[0] = cval(0);) DEF("atexit", ret[0] = cval(0);) 
  DEF("__cxa_guard_acquire", u64 p = A_(a[0]); raceExempt++; Val v = loadAt(p, 1); bool z = concretize(v, 8, "guard") == 0; raceExempt--; if (raceOn) { vjoin(VC[curTask], lockVC[p]); } ret[0] = cval(z);)
  DEF("__cxa_guard_release", u64 p = A_(a[0]); raceExempt++; storeAt(p, 1, cval(1)); raceExempt--; if (raceOn) { vjoin(lockVC[p], VC[curTask]); VC[curTask][curTask]++; }) NOP("__cxa_guard_abort")
  // exceptions
  DEF("__cxa_allocate_exception", u64 p = allocObj(concretize(a[0], 64, "size"), 16, K_ALIGNED, "exception"); ret[0] = cval(p);) DEF("__cxa_free_exception", killObj(A_(a[0]) >> SH);)
  DEF("__cxa_throw", u64 p = A_(a[0]); excs[p] = Exc{p, A_(a[1]), A_(a[2]), 0}; unwindingExc = p; wantUnwind = true;)
  DEF("__cxa_begin_catch", u64 p = A_(a[0]); caught.push_back(p); excs[p].refs++; ret[0] = cval(p);)
  DEF("__cxa_get_exception_ptr", ret[0] = a[0];)
  DEF("__cxa_end_catch", if (caught.empty()) return; u64 p = caught.back(); caught.pop_back(); Exc &e = excs[p]; e.refs--; if (e.refs == 0) { u64 dt = e.dtor; excs.erase(p); if (dt) { DFunc *d = funcAt(dt); if (d && d->F && !d->F->isDeclaration() && lookupBuiltin(d->name) < 0) callNative(d, {cval(p)}); } if (objs[p >> SH].alive) killObj(p >> SH); })
  DEF("__cxa_rethrow", if (caught.empty()) violation("terminate", "'throw;' with no active exception: std::terminate"); u64 p = caught.back(); excs[p].refs++; unwindingExc = p; wantUnwind = true; static int once = 0; (void)once;)
  DEF("_Unwind_Resume", unwindingExc = A_(a[0]); wantUnwind = true;)
  DEF("llvm.eh.typeid.for", ret[0] = cval(typeIdOf(A_(a[0])));) DEF("llvm.eh.typeid.for.p0", ret[0] = cval(typeIdOf(A_(a[0])));)
  DEF("vf.what", ret[0] = loadAt(A_(a[0]) + 8, 8);) NOP("vf.dtor") NOP("_ZNSt9exceptionD2Ev") NOP("_ZNSt9exceptionD1Ev") NOP("_ZNSt9exceptionD0Ev") DEF("_ZNKSt9exception4whatEv", static u64 s = 0; if (!s) { raceExempt++; s = cstr("std::exception"); raceExempt--; } ret[0] = cval(s);)
#define LOGIC(CTOR, TI) DEF(CTOR, u64 p = A_(a[0]); (void)p;)
  DEF("_ZSt20__throw_length_errorPKc", throwStd("_ZTISt12length_error", readStr(A_(a[0])));) DEF("_ZSt19__throw_logic_errorPKc", throwStd("_ZTISt11logic_error", readStr(A_(a[0])));) DEF("_ZSt20__throw_out_of_rangePKc", throwStd("_ZTISt12out_of_range", readStr(A_(a[0])));) DEF("_ZSt24__throw_out_of_range_fmtPKcz", throwStd("_ZTISt12out_of_range", readStr(A_(a[0])));) DEF("_ZSt24__throw_invalid_argumentPKc", throwStd("_ZTISt16invalid_argument", readStr(A_(a[0])));) DEF("_ZSt17__throw_bad_allocv", throwStd("_ZTISt9bad_alloc", "std::bad_alloc");) DEF("_ZSt28__throw_bad_array_new_lengthv", throwStd("_ZTISt20bad_array_new_length", "std::bad_array_new_length");) DEF("_ZSt25__throw_bad_function_callv", throwStd("_ZTISt17bad_function_call", "bad_function_call");) DEF("_ZSt16__throw_bad_castv", throwStd("_ZTISt8bad_cast", "bad_cast");) DEF("_ZSt21__throw_runtime_errorPKc", throwStd("_ZTISt13runtime_error", readStr(A_(a[0])));)
  // time: a concrete monotone clock
  DEF("_ZNSt6chrono3_V212steady_clock3nowEv", ret[0] = cval(tick += 1000);) DEF("_ZNSt6chrono3_V212system_clock3nowEv", ret[0] = cval(tick += 1000);) DEF("gettimeofday", u64 p = A_(a[0]); storeAt(p, 8, cval(0)); storeAt(p + 8, 8, cval(tick += 1000)); ret[0] = cval(0);) DEF("omp_get_wtime", ret[0] = cval(d2b(1e-6 * (double)(tick += 1000)));) DEF("clock_gettime", u64 p = A_(a[1]); storeAt(p, 8, cval(0)); storeAt(p + 8, 8, cval(tick += 1000)); ret[0] = cval(0);) DEF("time", ret[0] = cval(1000); if (!a[0].s && a[0].v) storeAt(a[0].v, 8, cval(1000));)
  // std containers' out-of-line helpers
  DEF("_ZNSt8__detail15_List_node_base7_M_hookEPS0_", u64 self = A_(a[0]); u64 pos = A_(a[1]); Val prev = loadAt(pos + 8, 8); storeAt(self, 8, cval(pos)); storeAt(self + 8, 8, prev); storeAt(A_(prev), 8, cval(self)); storeAt(pos + 8, 8, cval(self));)
  DEF("_ZNSt8__detail15_List_node_base9_M_unhookEv", u64 self = A_(a[0]); Val nx = loadAt(self, 8); Val pv = loadAt(self + 8, 8); storeAt(A_(pv), 8, nx); storeAt(A_(nx) + 8, 8, pv);)
  // math
#define M1(N) DEF(N, lanes(ci, 1, a, ret, [&](int i) { return fop1(N, a[i]); });) DEF("llvm." N ".f64", ret[0] = fop1(N, a[0]);) DEF("llvm." N ".f32", ret[0] = fop1f(N, a[0]);) DEF(N "f", ret[0] = fop1f(N, a[0]);)
#define M2(N, L) DEF(L, ret[0] = fop2(N, a[0], a[1]);) DEF(L "f", ret[0] = fop2f(N, a[0], a[1]);) DEF("llvm." N ".f64", ret[0] = fop2(N, a[0], a[1]);) DEF("llvm." N ".f32", ret[0] = fop2f(N, a[0], a[1]);)
  M1("nearbyint") M1("roundeven") M1("log10") M1("exp") M1("exp2") M2("minnum", "fmin") M2("maxnum", "fmax") M2("copysign", "copysign") M2("pow", "pow") DEF("fmod", ret[0] = fop2("fmod", a[0], a[1]);) DEF("fmodf", ret[0] = fop2f("fmod", a[0], a[1]);)
  M1("fabs") M1("floor") M1("ceil") M1("sqrt") M1("trunc") M1("rint") M1("round") M1("log") M1("log2")
  DEF("llvm.fabs.v4f64", lanes(ci, 4, a, ret, [&](int i) { return fop1("fabs", a[i]); });) DEF("llvm.fabs.v2f64", lanes(ci, 2, a, ret, [&](int i) { return fop1("fabs", a[i]); });)
  DEF("llvm.is.fpclass.f64", Val v = rs(a[0]); if (v.s) { ret[0] = cval(0); return; } double d = b2d(v.v); u64 m = a[1].v; bool r = ((m & 3) && std::isnan(d)) || ((m & 0x200) && d == INFINITY) || ((m & 4) && d == -INFINITY); ret[0] = cval(r);)
#define FMA(N, L) DEF(N, lanes(ci, L, a, ret, [&](int i) { Val x = a[i], y = a[L + i], z = a[2 * L + i]; x = rs(x); y = rs(y); z = rs(z); if (!x.s && !y.s && !z.s) return cval(d2b(std::fma(b2d(x.v), b2d(y.v), b2d(z.v)))); return mkF(O_FADD, mkF(O_FMUL, x, y), z); });)
  FMA("llvm.fma.f64", 1) FMA("llvm.fma.v2f64", 2) FMA("llvm.fma.v4f64", 4) FMA("llvm.fma.v8f64", 8) FMA("llvm.fmuladd.f64", 1) FMA("llvm.fmuladd.v2f64", 2) FMA("llvm.fmuladd.v4f64", 4) FMA("llvm.fmuladd.v8f64", 8) FMA("fma", 1)
#define FMAF(N, L) DEF(N, lanes(ci, L, a, ret, [&](int i) { Val x = a[i], y = a[L + i], z = a[2 * L + i], r; if (!plain("fma", x, 32, r) || !plain("fma", y, 32, r) || !plain("fma", z, 32, r)) return r; x = rs(x); y = rs(y); return cval(f2b(std::fma(b2f(x.v), b2f(y.v), b2f(z.v)))); });)
  FMAF("llvm.fma.f32", 1) FMAF("llvm.fmuladd.f32", 1) FMAF("llvm.fma.v2f32", 2) FMAF("llvm.fma.v4f32", 4) FMAF("llvm.fma.v8f32", 8) FMAF("llvm.fmuladd.v2f32", 2) FMAF("llvm.fmuladd.v4f32", 4) FMAF("llvm.fmuladd.v8f32", 8) FMAF("fmaf", 1)
  DEF("llvm.x86.avx.hadd.pd.256", ret[0] = mkF(O_FADD, a[0], a[1]); ret[1] = mkF(O_FADD, a[4], a[5]); ret[2] = mkF(O_FADD, a[2], a[3]); ret[3] = mkF(O_FADD, a[6], a[7]);)
  DEF("llvm.x86.sse3.hadd.pd", ret[0] = mkF(O_FADD, a[0], a[1]); ret[1] = mkF(O_FADD, a[2], a[3]);)
  DEF("llvm.vector.reduce.fadd.v4f64", Val r = a[0]; for (int i = 1; i <= 4; i++) r = mkF(O_FADD, r, a[i]); ret[0] = r;) DEF("llvm.vector.reduce.fadd.v2f64", Val r = a[0]; for (int i = 1; i <= 2; i++) r = mkF(O_FADD, r, a[i]); ret[0] = r;)
#define MM(N, C, X, Y) DEF("llvm." N ".i64", ret[0] = mkIte(mkBin(C, a[0], a[1], 64), X, Y, 64, false);) DEF("llvm." N ".i32", ret[0] = mkIte(mkBin(C, a[0], a[1], 32), X, Y, 32, false);) DEF("llvm." N ".i8", ret[0] = mkIte(mkBin(C, a[0], a[1], 8), X, Y, 8, false);)
  MM("umin", O_ULT, a[0], a[1]) MM("umax", O_ULT, a[1], a[0]) MM("smin", O_SLT, a[0], a[1]) MM("smax", O_SLT, a[1], a[0])
  DEF("llvm.abs.i64", ret[0] = mkIte(mkBin(O_SLT, a[0], cval(0), 64), mkBin(O_SUB, cval(0), a[0], 64), a[0], 64, false);) DEF("llvm.abs.i32", ret[0] = mkIte(mkBin(O_SLT, a[0], cval(0), 32), mkBin(O_SUB, cval(0), a[0], 32), a[0], 32, false);)
  DEF("llvm.usub.sat.i64", ret[0] = mkIte(mkBin(O_ULT, a[0], a[1], 64), cval(0), mkBin(O_SUB, a[0], a[1], 64), 64, false);) DEF("llvm.usub.sat.i32", ret[0] = mkIte(mkBin(O_ULT, a[0], a[1], 32), cval(0), mkBin(O_SUB, a[0], a[1], 32), 32, false);)
#define OV(N, K, O) DEF("llvm." N ".with.overflow.i64", ret[0] = mkBin(O, a[0], a[1], 64); ret[1] = ovf(K, a[0], a[1], 64);) DEF("llvm." N ".with.overflow.i32", ret[0] = mkBin(O, a[0], a[1], 32); ret[1] = ovf(K, a[0], a[1], 32);)
  OV("uadd", 0, O_ADD) OV("usub", 1, O_SUB) OV("umul", 2, O_MUL) OV("sadd", 3, O_ADD) OV("ssub", 4, O_SUB) OV("smul", 5, O_MUL)
  DEF("llvm.ctlz.i64", u64 v = concretize(a[0], 64, "ctlz"); ret[0] = cval(v ? __builtin_clzll(v) : 64);) DEF("llvm.cttz.i64", u64 v = concretize(a[0], 64, "cttz"); ret[0] = cval(v ? __builtin_ctzll(v) : 64);) DEF("llvm.ctpop.i64", ret[0] = cval(__builtin_popcountll(concretize(a[0], 64, "ctpop")));) DEF("llvm.ctlz.i32", u64 v = concretize(a[0], 32, "ctlz"); ret[0] = cval(v ? __builtin_clz(v) : 32);) DEF("llvm.cttz.i32", u64 v = concretize(a[0], 32, "cttz"); ret[0] = cval(v ? __builtin_ctz(v) : 32);) DEF("llvm.ctpop.i32", ret[0] = cval(__builtin_popcount(concretize(a[0], 32, "ctpop")));)
  DEF("llvm.fshl.i64", u64 s = concretize(a[2], 64, "fshl") & 63; ret[0] = s ? mkBin(O_OR, mkBin(O_SHL, a[0], cval(s), 64), mkBin(O_LSHR, a[1], cval(64 - s), 64), 64) : a[0];)
  DEF("llvm.expect.i1", ret[0] = a[0];) DEF("llvm.expect.i64", ret[0] = a[0];) DEF("llvm.is.constant.i64", ret[0] = cval(0);) DEF("llvm.is.constant.i1", ret[0] = cval(0);) DEF("llvm.objectsize.i64.p0", ret[0] = cval(~0ull);)
  // OpenMP
  DEF("__kmpc_fork_call", forkCall(ci, a);) DEF("__kmpc_global_thread_num", ret[0] = cval(curTid);) DEF("omp_get_thread_num", ret[0] = cval(curTid);) DEF("omp_get_num_threads", ret[0] = cval(teamSize);) DEF("omp_get_max_threads", ret[0] = cval(ompSet ? ompSet : ompThreads);) DEF("omp_get_num_procs", ret[0] = cval(ompThreads);) DEF("omp_set_num_threads", ompSet = concretize(a[0], 32, "threads");) DEF("__kmpc_push_num_threads", ompPush = concretize(a[2], 32, "threads");) DEF("omp_in_parallel", ret[0] = cval(parDepth > 0);)
  DEF("__kmpc_for_static_init_4", staticInit(a, 32, true);) DEF("__kmpc_for_static_init_4u", staticInit(a, 32, false);) DEF("__kmpc_for_static_init_8", staticInit(a, 64, true);) DEF("__kmpc_for_static_init_8u", staticInit(a, 64, false);) NOP("__kmpc_for_static_fini")
  DEF("__kmpc_dispatch_init_4", dispInit(a, 32, true);) DEF("__kmpc_dispatch_init_4u", dispInit(a, 32, false);) DEF("__kmpc_dispatch_init_8", dispInit(a, 64, true);) DEF("__kmpc_dispatch_init_8u", dispInit(a, 64, false);)
  DEF("__kmpc_dispatch_next_4", dispNext(a, ret, 32, true);) DEF("__kmpc_dispatch_next_4u", dispNext(a, ret, 32, false);) DEF("__kmpc_dispatch_next_8", dispNext(a, ret, 64, true);) DEF("__kmpc_dispatch_next_8u", dispNext(a, ret, 64, false);) NOP("__kmpc_dispatch_fini_4") NOP("__kmpc_dispatch_fini_4u") NOP("__kmpc_dispatch_fini_8") NOP("__kmpc_dispatch_fini_8u")
  DEF("__kmpc_barrier", if (teamSize > 1) wantBarrier = true;) NOP("__kmpc_flush") NOP("__kmpc_serialized_parallel") NOP("__kmpc_end_serialized_parallel")
#define LOCK(P) { u64 p = P; if (raceOn) vjoin(VC[curTask], lockVC[p]); }
#define UNLOCK(P) { u64 p = P; if (raceOn) { vjoin(lockVC[p], VC[curTask]); VC[curTask][curTask]++; } }
  DEF("__kmpc_critical", LOCK(A_(a[2]))) DEF("__kmpc_end_critical", UNLOCK(A_(a[2]))) DEF("__kmpc_reduce_nowait", LOCK(A_(a[6])) ret[0] = cval(1);) DEF("__kmpc_reduce", LOCK(A_(a[6])) ret[0] = cval(1);) DEF("__kmpc_end_reduce_nowait", UNLOCK(A_(a[2]))) DEF("__kmpc_end_reduce", UNLOCK(A_(a[2])) if (teamSize > 1) wantBarrier = true;)
  DEF("__kmpc_single", ret[0] = cval(curTid == 0);) NOP("__kmpc_end_single") DEF("__kmpc_master", ret[0] = cval(curTid == 0);) NOP("__kmpc_end_master") DEF("__kmpc_masked", ret[0] = cval(curTid == 0);) NOP("__kmpc_end_masked")
  DEF("pthread_mutex_lock", LOCK(A_(a[0])) ret[0] = cval(0);) DEF("pthread_mutex_unlock", UNLOCK(A_(a[0])) ret[0] = cval(0);)
  // harness interface
  DEF("vf_u64", std::string n = readStr(A_(a[0])); u64 lo = A_(a[1]); u64 hi = A_(a[2]); if (lo == hi) { ret[0] = cval(lo); return; } auto pi = params.find("fix." + n); u32 v = newVar(n, lo, hi); if (lastModel.ok) { lastModel.bv.resize(vars.size()); lastModel.fv.resize(vars.size()); lastModel.bv[vars.size() - 1] = lo; } Val x{0, v}; if (lo) addPC(mkRaw(O_ULE, cval(lo), x, 64)); if (hi != ~0ull) addPC(mkRaw(O_ULE, x, cval(hi), 64)); if (pi != params.end()) { if (pi->second < lo || pi->second > hi) finishProcess(); pinVar(vars.size() - 1, pi->second); } ret[0] = x;)
  DEF("vf_f64", std::string n = readStr(A_(a[0])); double mx = b2d(A_(a[1])); int sc = (int)A_(a[2]); u32 nv = newFVar(n, mx, sc); pinnedVar(nv); ret[0] = Val{0, nv}; lastModel.fv.resize(vars.size()); lastModel.bv.resize(vars.size());)
  DEF("vf_fill_factor", u64 p = A_(a[0]); u64 n = concretize(a[1], 64, "count"); std::string nm = readStr(A_(a[2])); bool right = A_(a[3]); double wide = b2d(A_(a[4])); double narrow = b2d(A_(a[5])); for (u64 i = 0; i < n * n; i++) { bool w = right ? (i / n) % 2 && (i % n) % 2 : (i % n) % 2 == 0; u32 nv = newFVar(nm + "." + std::to_string(i), w ? wide : narrow, fillScale); pinnedVar(nv); storeAt(p + 8 * i, 8, Val{0, nv}); } lastModel.fv.resize(vars.size()); lastModel.bv.resize(vars.size());)
  DEF("vf_all_equal", u64 p = A_(a[0]); u64 n = concretize(a[1], 64, "count"); u64 want = A_(a[2]); bool ok = true; raceExempt++; for (u64 i = 0; i < n && ok; i++) { Val x = rs(loadAt(p + 8 * i, 8)); if (x.s) ok = false; else ok = b2d(x.v) == b2d(want); } raceExempt--; ret[0] = cval(ok);)
  DEF("vf_fill", u64 p = A_(a[0]); u64 n = concretize(a[1], 64, "count"); std::string nm = readStr(A_(a[2])); double mx = b2d(A_(a[3])); for (u64 i = 0; i < n; i++) { u32 nv = newFVar(nm + "." + std::to_string(i), mx, fillScale); pinnedVar(nv); storeAt(p + 8 * i, 8, Val{0, nv}); } lastModel.fv.resize(vars.size()); lastModel.bv.resize(vars.size());)
  DEF("vf_assume", Val c = rs(a[0]); if (!c.s) { if (!(c.v & 1)) { sh->infeasible++; finishProcess(); } return; } addPC(c); bool x; if (modelSays(c, x) && x) return; Model m; R r = checkWith(nullptr, &m); if (r == UNK) engineError("assumption undecided"); if (r == UNSAT) { sh->infeasible++; finishProcess(); } lastModel = m;)
  DEF("vf_assert", assertTrue(a[0], readStr(A_(a[1])));)
  DEF("vf_eqf", addEq(a[0], a[1], readStr(A_(a[2])), concretize(a[3], 64, "index"));)
  DEF("vf_dot", u64 p = A_(a[0]); u64 sp = A_(a[1]); u64 q = A_(a[2]); u64 sq = A_(a[3]); u64 n = A_(a[4]); Val r = cval(0); raceExempt++; for (u64 i = 0; i < n; i++) { Val x = loadAt(p + 8 * sp * i, 8); Val y = loadAt(q + 8 * sq * i, 8); r = mkF(O_FADD, r, mkF(O_FMUL, x, y)); } raceExempt--; ret[0] = r;)
  DEF("vf_eqdot", /* got, A, sa, B, sb, n, msg, idx */ u64 p = A_(a[1]); u64 sp = A_(a[2]); u64 q = A_(a[3]); u64 sq = A_(a[4]); u64 n = A_(a[5]); Val r = cval(0); raceExempt++; for (u64 i = 0; i < n; i++) { Val x = loadAt(p + 8 * sp * i, 8); Val y = loadAt(q + 8 * sq * i, 8); r = mkF(O_FADD, r, mkF(O_FMUL, x, y)); } raceExempt--; addEq(a[0], r, readStr(A_(a[6])), A_(a[7]));)
  DEF("vf_concretize", ret[0] = cval(concretize(a[0], 64, "harness"));)
  DEF("vf_reach", u64 k = A_(a[0]); if (k < 256) sh->reach[k]++;)
  DEF("vf_param", std::string n = readStr(A_(a[0])); auto it = params.find(n); ret[0] = cval(it == params.end() ? A_(a[1]) : it->second);)
  DEF("vf_task_fork", ret[0] = cval(tOut(taskFork()));) DEF("vf_task_switch", ret[0] = cval(tOut(curTask)); { u64 t = A_(a[0]); if (t && !tIn(t) && raceEnabled) engineError("switch to a finished task"); curTask = tIn(t); }) DEF("vf_task_join", taskJoin(tIn(A_(a[0])));)
  DEF("vf_lock", LOCK(A_(a[0]))) DEF("vf_unlock", UNLOCK(A_(a[0])))
  DEF("vf_race_set", ret[0] = cval(raceExempt); raceExempt = (int)A_(a[0]);)
  DEF("vf_malloc_skew", mallocSkew = A_(a[0]);) DEF("vf_omp_threads", ompThreads = (int)concretize(a[0], 64, "thread count"); ompSet = 0;) DEF("vf_keep_i2f", keepI2F = A_(a[0]);)
  DEF("vf_nondet_order", /* a fresh choice in [0,n) */ u64 n = concretize(a[1], 64, "n"); if (n <= 1) { ret[0] = cval(0); return; } u32 v = newVar(readStr(A_(a[0])), 0, n - 1); Val x{0, v}; lastModel.bv.resize(vars.size()); lastModel.fv.resize(vars.size()); addPC(mkRaw(O_ULT, x, cval(n), 64)); ret[0] = x;)
  DEF("vf_is_uninit", Val v = rs(loadAt(A_(a[0]), 1)); ret[0] = cval(tainted(v));)
  DEF("vf_is_symbolic", Val v = rs(a[0]); ret[0] = cval(v.s != 0);)
  DEF("vf_readable", /* p, n: 1 if [p,p+n) lies in one live object */ u64 p = A_(a[0]); u64 n = A_(a[1]); u64 id = p >> SH; ret[0] = cval(id < objs.size() && objs[id].alive && p >= objs[id].base && p - objs[id].base + n <= objs[id].size);)
  DEF("vf_done", endPath();)
  DEF("vf_native", ret[0] = cval(0);)
  DEF("vf_heap_live", u64 n = 0; for (auto &o : objs) if (o.alive && (o.kind == K_HEAP || o.kind == K_NEW || o.kind == K_NEWARR || o.kind == K_ALIGNED)) n++; ret[0] = cval(n);)
  DEF("vf_log", fprintf(stderr, "[vf] %s %s\n", readStr(A_(a[0])).c_str(), pp(rs(a[1]), 64).c_str());)
  DEF("exit", violation("abort", "exit() called");)
}
static int lookupBuiltin(const std::string &n) { auto it = biIdx.find(n); return it == biIdx.end() ? -1 : it->second; }
#include "asm.inc"

// ------------------------------------------------------------------ main
static void initGlobals() {
  { fnId = objs.size(); u64 b = allocObj(16, 16, K_FUNC, "code"); objs[b >> SH].size = 0; }
  for (auto &G : M->globals()) { u64 sz = G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : 64; std::string nm = G.getName().str(); if (G.isDeclaration()) sz = std::max<u64>(sz, 64); u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 16); char *wn = strdup(("global " + demangle(nm)).c_str()); u64 a = allocObj(sz, al, K_GLOBAL, wn); gaddr[&G] = a; memset(objs[a >> SH].init, 0xFF, (sz + 7) / 8 + 1); if (nm.substr(0, 4) == "_ZTI") tiGlobal[a] = &G; }
  for (auto &F : *M) getD(&F);
  for (auto &G : M->globals()) {
    u64 a = gaddr[&G]; std::string nm = G.getName().str();
    if (G.hasInitializer()) { if (nm == "llvm.global_ctors" || nm == "llvm.used" || nm == "llvm.compiler.used" || nm == "llvm.global_dtors") continue; storeConst(a, G.getInitializer()); if (G.isConstant()) objs[a >> SH].ro = 1; }
    else if (nm.substr(0, 6) == "_ZTVSt") { storeAt(a, 8, cval(0)); storeAt(a + 8, 8, cval(0)); storeAt(a + 16, 8, cval(fnAddr("vf.dtor"))); storeAt(a + 24, 8, cval(fnAddr("vf.dtor"))); storeAt(a + 32, 8, cval(fnAddr(nm == "_ZTVSt9exception" ? "_ZNKSt9exception4whatEv" : "vf.what"))); }
  }
}
static void runCtors() {
  auto *G = M->getNamedGlobal("llvm.global_ctors"); if (!G || !G->hasInitializer()) return; auto *CA = dyn_cast<ConstantArray>(G->getInitializer()); if (!CA) return;
  std::vector<std::pair<u64, Function *>> v; for (unsigned i = 0; i < CA->getNumOperands(); i++) { auto *CS = cast<ConstantStruct>(CA->getOperand(i)); if (auto *F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
  std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; }); for (auto &p : v) callNative(getD(p.second), {});
}
int main(int argc, char **argv) {
  std::string file, entry = "vf_main"; int jobs = 8; double dl = 0; u64 caps = 0; std::string root = "/repo";
  for (int i = 1; i < argc; i++) { std::string s = argv[i];
    if (s == "--entry") entry = argv[++i]; else if (s == "--out") outDir = argv[++i]; else if (s == "--jobs") jobs = atoi(argv[++i]); else if (s == "--param") { std::string p = argv[++i]; size_t e = p.find('='); params[p.substr(0, e)] = strtoull(p.c_str() + e + 1, 0, 0); } else if (s == "--deadline") dl = atof(argv[++i]); else if (s == "--instr-cap") caps = strtoull(argv[++i], 0, 0); else if (s == "--rlimit") rlimitQ = strtoul(argv[++i], 0, 0); else if (s == "--frac") fillScale = atoi(argv[++i]); else if (s == "--batch") batchMax = strtoul(argv[++i], 0, 0); else if (s == "--root") root = argv[++i]; else if (s == "--max-viol") maxViol = atoi(argv[++i]); else file = s; }
  if (caps) instrCap = caps;
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); sh->tokens = jobs - 1;
  mkdir(outDir.c_str(), 0755); if (dl) deadline = nowS() + dl; double t0 = nowS();
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(file, err, ctx); if (!mod) { err.print("symx", errs()); return 2; } M = mod.get(); DL = &M->getDataLayout();
  { DebugInfoFinder fi; fi.processModule(*M); for (auto &F : *M) for (auto &B : F) for (auto &I : B) if (const DILocation *l = I.getDebugLoc().get()) while (l) { fi.processLocation(*M, l); l = l->getInlinedAt(); }
    for (auto *sp : fi.subprograms()) if (!spIdx.count(sp)) { spIdx[sp] = spv.size(); spv.push_back(sp); } }
  regAll();
  fflush(stdout); pid_t p = fork();
  if (p == 0) {
    kids.clear(); ownToken = false; initZ3(); objs.reserve(4096); objs.push_back(Obj{}); mkNode(Node{}); 
    Function *E = M->getFunction(entry); if (!E || E->isDeclaration()) { fprintf(stderr, "symx: no entry %s\n", entry.c_str()); sh->errs++; _exit(0); }
    initGlobals(); runCtors(); Thread main; DFunc *d = getD(E); decode(d); pushFrame(main, d, nullptr, 0, -1, 0); RunR r = run(main, 0); cur = nullptr;
    if (r == UNWIND) violation("terminate", "uncaught exception of type " + excName(unwindingExc)); endPath();
  }
  int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { sh->errs++; fprintf(stderr, "symx: worker died (status %d)\n", st); }
  std::set<std::string> fns; for (size_t i = 0; i < spv.size() && i < 65536; i++) if (sh->fn[i]) { std::string f = spv[i]->getFilename().str(); if (!f.empty() && f[0] != '/') f = spv[i]->getDirectory().str() + "/" + f; if (f.compare(0, root.size(), root) == 0) { std::string nm = spv[i]->getLinkageName().str(); nm = nm.empty() ? spv[i]->getName().str() : demangle(nm); if (nm.size() > 160) nm = spv[i]->getName().str(); fns.insert(f + ":" + std::to_string(spv[i]->getLine()) + " " + nm); } }
  printf("{\"paths\":%ld,\"forks\":%ld,\"infeasible\":%ld,\"instructions\":%lu,\"max_path_instructions\":%lu,\"queries\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unknown\":%ld,\"solver_s\":%.3f,\"asserts\":%ld,\"symbolic_asserts\":%ld,\"violations\":%ld,\"errors\":%ld,\"race_checked_accesses\":%ld,\"max_nodes\":%lu,\"wall_s\":%.2f,\"reach\":{", (long)sh->paths, (long)sh->forks, (long)sh->infeasible, (unsigned long)sh->instrs, (unsigned long)sh->maxPathInstr, (long)sh->queries, (long)sh->qsat, (long)sh->qunsat, (long)sh->qunk, sh->solverUs / 1e6, (long)sh->asserts, (long)sh->symAsserts, (long)sh->viol, (long)sh->errs, (long)sh->accesses, (unsigned long)sh->maxNodes, nowS() - t0);
  bool first = true; for (int i = 0; i < 256; i++) if (sh->reach[i]) { printf("%s\"%d\":%lu", first ? "" : ",", i, (unsigned long)sh->reach[i]); first = false; }
  printf("},\"functions\":["); first = true; for (auto &f : fns) { printf("%s%s", first ? "" : ",", jstr(f).c_str()); first = false; }
  printf("]}\n"); return 0;
}
