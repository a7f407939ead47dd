// Decoding of LLVM functions, the interpreter loop, builtins and main().  Included by symx.cpp.

// ------------------------------------------------------------------ decoding
static std::map<const Constant *, int> constIdx;
typedef void (*BFn)(const CallI &ci, const DI &di, Val *a, Val *ret);
struct Builtin { std::string name; BFn fn; };
static std::vector<Builtin> builtins; static std::map<std::string, int> biIdx;
static int lookupBuiltin(const std::string &n);
static void markSP(const DISubprogram *sp) {
  if (!sp) return; auto it = spIdx.find(sp); if (it != spIdx.end() && it->second < 65536) sh->fn[it->second] = 1;
}
static int cidx(const Constant *C) {
  auto it = constIdx.find(C); if (it != constIdx.end()) return it->second;
  std::vector<Val> v; flatten(C, v); int k = cpool.size(); for (auto &x : v) cpool.push_back(x); if (v.empty()) cpool.push_back(cval(0));
  return constIdx[C] = ~k;
}
static void decode(DFunc *d) {
  if (d->decoded) return; d->decoded = true; Function *F = d->F; d->isVarArg = F->isVarArg();
  markSP(F->getSubprogram());
  std::map<const Value *, int> slot; std::map<const BasicBlock *, int> bidx; int ns = 0;
  for (auto &A : F->args()) { slot[&A] = ns; d->argSlot.push_back(ns); ns += ncomp(A.getType()); }
  int nb = 0;
  for (auto &B : *F) { bidx[&B] = nb++; for (auto &I : B) { if (!I.getType()->isVoidTy()) { slot[&I] = ns; ns += std::max(1u, ncomp(I.getType())); }
      if (const DILocation *l = I.getDebugLoc().get()) while (l) { markSP(l->getScope()->getSubprogram()); l = l->getInlinedAt(); } } }
  d->nslots = ns; d->bstart.assign(nb, 0);
  auto opnd = [&](const Value *V) -> int {
    if (auto *C = dyn_cast<Constant>(V)) return cidx(C);
    auto it = slot.find(V); if (it != slot.end()) return it->second;
    return ~0 - 1000000000; };
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) -> int {
    Edge e; for (auto &P : to->phis()) { const Value *in = P.getIncomingValueForBlock(from); if (isa<UndefValue>(in) && !isa<PoisonValue>(in)) {} e.c.push_back(PhiC{slot[&P], opnd(in), (int)ncomp(P.getType())}); }
    if (e.c.empty()) return -1; d->edges.push_back(e); return d->edges.size() - 1; };
  std::vector<std::pair<int, int *>> dummy; (void)dummy;
  for (auto &B : *F) {
    d->bstart[bidx[&B]] = d->code.size();
    for (auto &I : B) {
      if (isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) continue;
      DI x{}; x.src = &I; x.dst = I.getType()->isVoidTy() ? -1 : slot[&I]; Type *T = I.getType(); x.n = T->isVoidTy() ? 0 : ncomp(T); x.w = T->isVoidTy() || T->isAggregateType() ? 0 : std::min(255u, widthOf(T)); x.a = x.b = x.c = 0; x.aux = -1;
      if (!T->isVoidTy() && !T->isAggregateType() && T->getScalarType()->isIntegerTy() && T->getScalarType()->getIntegerBitWidth() > 64) engineError("integer wider than 64 bits in " + d->name + " at " + locOf(&I));
      switch (I.getOpcode()) {
#define BIN(O, K) case Instruction::O: x.op = D_BIN; x.imm = K; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
      BIN(Add, O_ADD) BIN(Sub, O_SUB) BIN(Mul, O_MUL) BIN(UDiv, O_UDIV) BIN(SDiv, O_SDIV) BIN(URem, O_UREM) BIN(SRem, O_SREM) BIN(And, O_AND) BIN(Or, O_OR) BIN(Xor, O_XOR) BIN(Shl, O_SHL) BIN(LShr, O_LSHR) BIN(AShr, O_ASHR)
#define FBIN(O, K) case Instruction::O: x.op = D_FBIN; x.imm = K; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
      FBIN(FAdd, O_FADD) FBIN(FSub, O_FSUB) FBIN(FMul, O_FMUL) FBIN(FDiv, O_FDIV)
      case Instruction::FNeg: x.op = D_FNEG; x.a = opnd(I.getOperand(0)); break;
      case Instruction::ICmp: x.op = D_ICMP; x.imm = cast<ICmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::FCmp: x.op = D_FCMP; x.imm = cast<FCmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::ZExt: x.op = D_ZEXT; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::SExt: x.op = D_SEXT; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::Trunc: x.op = D_TRUNC; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::UIToFP: x.op = D_UITOFP; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::SIToFP: x.op = D_SITOFP; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::FPToUI: x.op = D_FPTOUI; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::FPToSI: x.op = D_FPTOSI; x.a = opnd(I.getOperand(0)); x.w2 = widthOf(I.getOperand(0)->getType()); break;
      case Instruction::FPExt: x.op = D_FPEXT; x.a = opnd(I.getOperand(0)); break;
      case Instruction::FPTrunc: x.op = D_FPTRUNC; x.a = opnd(I.getOperand(0)); break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: {
        unsigned w2 = widthOf(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); x.w2 = w2; x.op = w2 == x.w ? D_COPY : w2 < x.w ? D_ZEXT : D_TRUNC; break; }
      case Instruction::BitCast: {
        Type *S = I.getOperand(0)->getType(); x.a = opnd(I.getOperand(0));
        if (ncomp(S) == ncomp(T)) x.op = D_COPY; else { x.op = D_BITCAST; x.w2 = widthOf(S); x.b = ncomp(S); } break; }
      case Instruction::Freeze: x.op = D_COPY; x.a = opnd(I.getOperand(0)); break;
      case Instruction::AddrSpaceCast: x.op = D_COPY; x.a = opnd(I.getOperand(0)); break;
      case Instruction::Select: x.op = D_SELECT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); x.imm = I.getOperand(0)->getType()->isVectorTy(); x.aux = isFPs(T); break;
      case Instruction::Alloca: { auto &A = cast<AllocaInst>(I); x.op = D_ALLOCA; x.imm = DL->getTypeAllocSize(A.getAllocatedType()); x.a = opnd(A.getArraySize()); x.aux = A.getAlign().value(); break; }
      case Instruction::Load: case Instruction::Store: {
        bool ld = isa<LoadInst>(I); Type *VT = ld ? T : I.getOperand(0)->getType(); unsigned al = ld ? cast<LoadInst>(I).getAlign().value() : cast<StoreInst>(I).getAlign().value();
        x.op = ld ? D_LOAD : D_STORE; x.a = opnd(ld ? I.getOperand(0) : I.getOperand(1)); if (!ld) { x.b = opnd(I.getOperand(0)); x.n = ncomp(VT); }
        std::vector<std::pair<u64, Type *>> co; compOffsets(VT, 0, co); std::vector<int> mk; for (auto &p : co) { mk.push_back(p.first); mk.push_back(widthOf(p.second)); mk.push_back(DL->getTypeStoreSize(p.second)); if (widthOf(p.second) == 0) engineError("load/store of unsupported type at " + locOf(&I)); }
        x.w = widthOf(VT); x.imm = DL->getTypeStoreSize(VT); d->memk.push_back(mk); x.aux = d->memk.size() - 1; x.c = VT->isVectorTy() && al >= 16 ? (int)al : 0;
        x.w2 = (ld ? cast<LoadInst>(I).isAtomic() : cast<StoreInst>(I).isAtomic()); break; }
      case Instruction::GetElementPtr: {
        auto &G = cast<GetElementPtrInst>(I); if (T->isVectorTy()) engineError("vector gep"); x.op = D_GEP; x.a = opnd(G.getPointerOperand()); x.imm = 0; std::vector<GepT> ts;
        for (auto gi = gep_type_begin(G), ge = gep_type_end(G); gi != ge; ++gi) {
          if (StructType *ST = gi.getStructTypeOrNull()) { x.imm += DL->getStructLayout(ST)->getElementOffset(cast<ConstantInt>(gi.getOperand())->getZExtValue()); continue; }
          int64_t sc = DL->getTypeAllocSize(gi.getIndexedType());
          if (auto *CI = dyn_cast<ConstantInt>(gi.getOperand())) { x.imm += sc * CI->getSExtValue(); continue; }
          ts.push_back(GepT{opnd(gi.getOperand()), (int)widthOf(gi.getOperand()->getType()), sc}); }
        if (ts.size() == 1 && ts[0].w == 64) { x.op = D_GEPF; x.b = ts[0].op; d->geps.push_back(ts); x.aux = d->geps.size() - 1; }
        else { d->geps.push_back(ts); x.aux = d->geps.size() - 1; } break; }
      case Instruction::Br: { auto &Br = cast<BranchInst>(I);
        if (Br.isUnconditional()) { x.op = D_BR; x.b = bidx[Br.getSuccessor(0)]; x.aux = mkEdge(&B, Br.getSuccessor(0)); }
        else { x.op = D_CBR; x.a = opnd(Br.getCondition()); x.b = bidx[Br.getSuccessor(0)]; x.c = bidx[Br.getSuccessor(1)]; x.aux = mkEdge(&B, Br.getSuccessor(0)); x.imm = mkEdge(&B, Br.getSuccessor(1)); } break; }
      case Instruction::Switch: { auto &S = cast<SwitchInst>(I); x.op = D_SWITCH; x.a = opnd(S.getCondition()); x.w2 = widthOf(S.getCondition()->getType()); SwI s; s.defB = bidx[S.getDefaultDest()]; s.defE = mkEdge(&B, S.getDefaultDest());
        for (auto c : S.cases()) { s.cases.push_back({c.getCaseValue()->getZExtValue(), bidx[c.getCaseSuccessor()]}); s.edges.push_back(mkEdge(&B, c.getCaseSuccessor())); }
        d->sws.push_back(s); x.aux = d->sws.size() - 1; break; }
      case Instruction::Ret: x.op = D_RET; x.n = 0; if (I.getNumOperands()) { x.a = opnd(I.getOperand(0)); x.n = ncomp(I.getOperand(0)->getType()); } break;
      case Instruction::Unreachable: x.op = D_UNREACH; break;
      case Instruction::LandingPad: { auto &L = cast<LandingPadInst>(I); x.op = D_LPAD; LpadC lc; lc.cleanup = L.isCleanup(); for (unsigned i = 0; i < L.getNumClauses(); i++) { if (L.isCatch(i)) lc.clauses.push_back({0, opnd(L.getClause(i))}); else lc.clauses.push_back({1, 0}); } d->lpads.push_back(lc); x.aux = d->lpads.size() - 1; break; }
      case Instruction::Resume: x.op = D_RESUME; x.a = opnd(I.getOperand(0)); break;
      case Instruction::ExtractElement: x.op = D_EXTELT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.imm = ncomp(I.getOperand(0)->getType()); break;
      case Instruction::InsertElement: x.op = D_INSELT; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.c = opnd(I.getOperand(2)); break;
      case Instruction::ShuffleVector: { auto &S = cast<ShuffleVectorInst>(I); x.op = D_SHUF; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); x.imm = ncomp(I.getOperand(0)->getType()); std::vector<int> m(S.getShuffleMask().begin(), S.getShuffleMask().end()); d->shufs.push_back(m); x.aux = d->shufs.size() - 1; break; }
      case Instruction::ExtractValue: { auto &E = cast<ExtractValueInst>(I); x.op = D_COPY; unsigned off = 0; Type *C = E.getAggregateOperand()->getType(); for (unsigned ix : E.indices()) { if (auto *ST = dyn_cast<StructType>(C)) { for (unsigned k = 0; k < ix; k++) off += ncomp(ST->getElementType(k)); C = ST->getElementType(ix); } else { C = cast<ArrayType>(C)->getElementType(); off += ix * ncomp(C); } }
        int o = opnd(E.getAggregateOperand()); x.a = o >= 0 ? o + (int)off : ~(~o + (int)off); break; }
      case Instruction::InsertValue: { auto &E = cast<InsertValueInst>(I); x.op = D_INSVAL; unsigned off = 0; Type *C = T; for (unsigned ix : E.indices()) { if (auto *ST = dyn_cast<StructType>(C)) { for (unsigned k = 0; k < ix; k++) off += ncomp(ST->getElementType(k)); C = ST->getElementType(ix); } else { C = cast<ArrayType>(C)->getElementType(); off += ix * ncomp(C); } }
        x.a = opnd(E.getAggregateOperand()); x.b = opnd(E.getInsertedValueOperand()); x.imm = off; x.c = ncomp(C); break; }
      case Instruction::AtomicRMW: { auto &A = cast<AtomicRMWInst>(I); x.op = D_RMW; x.a = opnd(A.getPointerOperand()); x.b = opnd(A.getValOperand()); x.imm = A.getOperation(); break; }
      case Instruction::AtomicCmpXchg: { auto &A = cast<AtomicCmpXchgInst>(I); x.op = D_CMPXCHG; x.a = opnd(A.getPointerOperand()); x.b = opnd(A.getCompareOperand()); x.c = opnd(A.getNewValOperand()); x.w = widthOf(A.getCompareOperand()->getType()); break; }
      case Instruction::Fence: x.op = D_NOP; break;
      case Instruction::Call: case Instruction::Invoke: {
        auto &C = cast<CallBase>(I); CallI ci{}; ci.callee = nullptr; ci.bi = -1; ci.calleeOp = 0; ci.ia = nullptr; ci.cb = &C; ci.isInvoke = isa<InvokeInst>(I);
        const Value *cv = C.getCalledOperand()->stripPointerCasts(); if (auto *GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
        if (auto *IA = dyn_cast<InlineAsm>(cv)) { ci.ia = IA; ci.bi = -2; }
        else if (auto *Fn = dyn_cast<Function>(cv)) { ci.callee = getD(const_cast<Function *>(Fn)); std::string nm = Fn->getName().str(); ci.bi = lookupBuiltin(nm); if (ci.bi < 0 && Fn->isDeclaration()) ci.bi = -3; }
        else ci.calleeOp = opnd(cv);
        bool skip = false; if (auto *II = dyn_cast<IntrinsicInst>(&I)) { switch (II->getIntrinsicID()) { case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::var_annotation: case Intrinsic::prefetch: case Intrinsic::sideeffect: skip = true; break; default:; } }
        if (skip) continue;
        int pos = 0; for (unsigned i = 0; i < C.arg_size(); i++) { Value *A = C.getArgOperand(i); if (A->getType()->isMetadataTy()) { ci.args.push_back(cidx(ConstantInt::get(Type::getInt64Ty(I.getContext()), 0))); ci.argn.push_back(1); ci.argw.push_back(64); ci.byval.push_back(0); pos++; continue; }
          ci.args.push_back(opnd(A)); int n = ncomp(A->getType()); ci.argn.push_back(n); ci.argw.push_back(A->getType()->isAggregateType() ? 0 : widthOf(A->getType())); ci.byval.push_back(C.isByValArgument(i) ? DL->getTypeAllocSize(C.getParamByValType(i)) : 0); pos += n; }
        if (ci.isInvoke) { auto &V = cast<InvokeInst>(I); ci.normalB = bidx[V.getNormalDest()]; ci.normalE = mkEdge(&B, V.getNormalDest()); ci.unwindB = bidx[V.getUnwindDest()]; ci.unwindE = mkEdge(&B, V.getUnwindDest()); }
        x.op = D_CALL; d->calls.push_back(ci); x.aux = d->calls.size() - 1; break; }
      default: engineError(std::string("unsupported instruction ") + I.getOpcodeName() + " at " + locOf(&I));
      }
      d->code.push_back(x);
    }
  }
}

// ------------------------------------------------------------------ interpreter
enum RunR { DONE, BARRIER, UNWIND };
static RunR run(Thread &T, size_t base);
static std::vector<Val> nativeRet;
static u64 lpPtr; static u64 lpSel; static bool wantUnwind = false, wantBarrier = false;
static bool redirected = false; // a builtin pushed a frame / changed control itself
static inline Val getv(const Frame &f, int op, int i = 0) { return op >= 0 ? f.s[op + i] : cpool[(~op) + i]; }
static void pushFrame(Thread &T, DFunc *d, const Val *args, int nargs, int retDst, int retN) {
  if (!d->F || d->F->isDeclaration()) engineError("call of a function with no body: " + d->name);
  decode(d); if (T.st.size() > 20000) violation("nontermination", "call stack deeper than 20000 frames");
  Frame f{}; f.f = d; if (!d->freeSlots.empty()) { f.s = d->freeSlots.back(); d->freeSlots.pop_back(); } else f.s = (Val *)calloc(d->nslots + 1, sizeof(Val));
  for (int i = 0; i < nargs; i++) f.s[i] = args[i];
  f.pc = 0; f.retDst = retDst; f.retN = retN; T.st.push_back(std::move(f));
}
static void popFrame(Thread &T) { Frame &f = T.st.back(); for (u32 a : f.allocas) killObj(a); f.f->freeSlots.push_back(f.s); T.st.pop_back(); }
static void takeEdge(Frame &f, int e, int b) {
  if (e >= 0) {
    const Edge &E = f.f->edges[e];
    if (E.c.size() == 1) { const PhiC &p = E.c[0]; if (p.n == 1) f.s[p.dst] = getv(f, p.src); else { Val t[64]; std::vector<Val> big; Val *tp = t; if (p.n > 64) { big.resize(p.n); tp = big.data(); } for (int i = 0; i < p.n; i++) tp[i] = getv(f, p.src, i); for (int i = 0; i < p.n; i++) f.s[p.dst + i] = tp[i]; } }
    else { Val t[128]; std::vector<Val> big; size_t tot = 0; for (auto &p : E.c) tot += p.n; Val *tp = t; if (tot > 128) { big.resize(tot); tp = big.data(); } size_t k = 0; for (auto &p : E.c) for (int i = 0; i < p.n; i++) tp[k++] = getv(f, p.src, i); k = 0; for (auto &p : E.c) for (int i = 0; i < p.n; i++) f.s[p.dst + i] = tp[k++]; }
  }
  f.curBlock = b; f.pc = f.f->bstart[b];
}
// --- exceptions
static std::map<u64, int> typeIds;
static int typeIdOf(u64 ti) { auto it = typeIds.find(ti); if (it != typeIds.end()) return it->second; int k = typeIds.size() + 1; typeIds[ti] = k; return k; }
static std::map<u64, const GlobalValue *> tiGlobal;
static std::map<std::string, std::string> stdParent = {
  {"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
  {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"},
  {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}};
static std::map<u64, std::string> tiName; // for typeinfos not in the module
static bool tiDerives(u64 t, u64 c) {
  if (t == c) return true;
  std::string nm; const GlobalValue *g = nullptr; auto it = tiGlobal.find(t); if (it != tiGlobal.end()) { g = it->second; nm = g->getName().str(); } else { auto j = tiName.find(t); if (j != tiName.end()) nm = j->second; }
  std::string cn; { auto i2 = tiGlobal.find(c); if (i2 != tiGlobal.end()) cn = i2->second->getName().str(); else { auto j = tiName.find(c); if (j != tiName.end()) cn = j->second; } }
  if (!nm.empty() && nm == cn) return true;
  if (auto *GV = dyn_cast_or_null<GlobalVariable>(g)) if (GV->hasInitializer()) if (auto *CS = dyn_cast<ConstantStruct>(GV->getInitializer())) {
    if (CS->getNumOperands() == 3) { auto *B = dyn_cast<GlobalValue>(CS->getOperand(2)->stripPointerCasts()); if (B) return tiDerives(addrOfGlobal(B), c); }
    if (CS->getNumOperands() >= 6) for (unsigned i = 4; i + 1 < CS->getNumOperands(); i += 2) { auto *B = dyn_cast<GlobalValue>(CS->getOperand(i)->stripPointerCasts()); if (B && tiDerives(addrOfGlobal(B), c)) return true; }
    return false;
  }
  auto p = stdParent.find(nm); while (p != stdParent.end()) { if (p->second == cn) return true; p = stdParent.find(p->second); }
  return false;
}
static bool unwind(Thread &T, size_t base) {
  u64 ti = excs[unwindingExc].tinfo;
  for (;;) {
    Frame &f = T.st.back(); const DI &di = f.f->code[f.pc];
    if (di.op == D_CALL && f.f->calls[di.aux].isInvoke) {
      const CallI &ci = f.f->calls[di.aux]; int k = f.f->bstart[ci.unwindB]; while (f.f->code[k].op != D_LPAD) k++;
      const LpadC &lc = f.f->lpads[f.f->code[k].aux]; int sel = -1;
      for (auto &cl : lc.clauses) { if (cl.first == 0) { u64 c = getv(f, cl.second).v; if (c == 0) { sel = typeIdOf(0); break; } if (tiDerives(ti, c)) { sel = typeIdOf(c); break; } } }
      if (sel < 0 && lc.cleanup) sel = 0;
      if (sel >= 0) { lpPtr = unwindingExc; lpSel = sel; takeEdge(f, ci.unwindE, ci.unwindB); return true; }
    }
    popFrame(T); if (T.st.size() == base) return false;
  }
}
static std::string excName(u64 p) { auto it = excs.find(p); if (it == excs.end()) return "?"; auto j = tiGlobal.find(it->second.tinfo); std::string n = j != tiGlobal.end() ? j->second->getName().str() : tiName.count(it->second.tinfo) ? tiName[it->second.tinfo] : "?"; if (n.substr(0, 4) == "_ZTI") return demangle("_Z" + n.substr(4)); return n; }

static bool fcmpConst(int pred, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  switch (pred) {
  case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true; case CmpInst::FCMP_ORD: return !un; case CmpInst::FCMP_UNO: return un;
  case CmpInst::FCMP_OEQ: return x == y; case CmpInst::FCMP_OGT: return x > y; case CmpInst::FCMP_OGE: return x >= y; case CmpInst::FCMP_OLT: return x < y; case CmpInst::FCMP_OLE: return x <= y; case CmpInst::FCMP_ONE: return !un && x != y;
  case CmpInst::FCMP_UEQ: return un || x == y; case CmpInst::FCMP_UGT: return un || x > y; case CmpInst::FCMP_UGE: return un || x >= y; case CmpInst::FCMP_ULT: return un || x < y; case CmpInst::FCMP_ULE: return un || x <= y; case CmpInst::FCMP_UNE: return un || x != y;
  }
  return false;
}
static float b2f(u64 b) { u32 x = b; float f; memcpy(&f, &x, 4); return f; }
static u64 f2b(float f) { u32 x; memcpy(&x, &f, 4); return x; }
static Val fbin(int op, Val a, Val b, unsigned w) {
  if (w == 64) return mkF(op, a, b);
  a = rs(a); b = rs(b); if (a.s || b.s) { if (tainted(a) || tainted(b)) return Val{0, newGarbage(32)}; pinData("symbolic single-precision arithmetic"); a = rs(a); b = rs(b); }
  float x = b2f(a.v), y = b2f(b.v), r = 0; switch (op) { case O_FADD: r = x + y; break; case O_FSUB: r = x - y; break; case O_FMUL: r = x * y; break; case O_FDIV: r = x / y; break; } return cval(f2b(r));
}
static Val fcmp(int pred, Val a, Val b, unsigned w) {
  a = rs(a); b = rs(b);
  if (!a.s && !b.s) return cval(w == 64 ? fcmpConst(pred, b2d(a.v), b2d(b.v)) : fcmpConst(pred, b2f(a.v), b2f(b.v)));
  if (w != 64) engineError("symbolic single-precision comparison");
  switch (pred) {
  case CmpInst::FCMP_FALSE: return cval(0); case CmpInst::FCMP_TRUE: return cval(1); case CmpInst::FCMP_ORD: return cval(1); case CmpInst::FCMP_UNO: return cval(0);
  case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return mkFcmp(O_FEQ, a, b); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return notV(mkFcmp(O_FEQ, a, b));
  case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return mkFcmp(O_FLT, a, b); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return mkFcmp(O_FLE, a, b);
  case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return mkFcmp(O_FLT, b, a); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return mkFcmp(O_FLE, b, a);
  }
  return cval(0);
}
static Val icmp(int pred, Val a, Val b, unsigned w) {
  switch (pred) {
  case CmpInst::ICMP_EQ: return mkBin(O_EQ, a, b, w); case CmpInst::ICMP_NE: return notV(mkBin(O_EQ, a, b, w));
  case CmpInst::ICMP_ULT: return mkBin(O_ULT, a, b, w); case CmpInst::ICMP_ULE: return mkBin(O_ULE, a, b, w); case CmpInst::ICMP_UGT: return mkBin(O_ULT, b, a, w); case CmpInst::ICMP_UGE: return mkBin(O_ULE, b, a, w);
  case CmpInst::ICMP_SLT: return mkBin(O_SLT, a, b, w); case CmpInst::ICMP_SLE: return mkBin(O_SLE, a, b, w); case CmpInst::ICMP_SGT: return mkBin(O_SLT, b, a, w); case CmpInst::ICMP_SGE: return mkBin(O_SLE, b, a, w);
  }
  return cval(0);
}
static bool keepI2F = false;
static Val int2f(Val a, unsigned w, bool sgn) {
  a = rs(a); if (!a.s) return cval(d2b(sgn ? (double)sx(a.v, w) : (double)a.v));
  if (tainted(a)) { return Val{0, toF(Val{0, newGarbage(64)}).s}; }
  if (!keepI2F) { u64 c = concretize(a, w, "integer converted to floating point"); return cval(d2b(sgn ? (double)sx(c, w) : (double)c)); }
  Val z = mkBin(O_ULT, a, cval(1ull << 20), w); z = rs(z); bool small = !z.s ? z.v : checkWith(zBoolV(notV(z)), nullptr) == UNSAT;
  if (!small) { u64 c = concretize(a, w, "integer converted to floating point"); return cval(d2b(sgn ? (double)sx(c, w) : (double)c)); }
  Val r = mkI2F(a, 20); return r;
}
static void divCheck(Val b, unsigned w) {
  b = rs(b); if (!b.s) { if (b.v == 0) violation("divide", "integer division by zero"); return; }
  Val z = mkBin(O_EQ, b, cval(0), w); if (decide(z)) violation("divide", "integer division by zero");
}
static Val loadV(Obj &o, u64 off, unsigned w, unsigned bytes) { Val v = loadScalar(o, off, bytes); if (w < bytes * 8) v = mkExtract(v, bytes * 8, 0, w); return v; }
static u64 pathInstrBase = 0;
static void doCall(Thread &T, Frame &f, const DI &di);

static RunR run(Thread &T, size_t base) {
  Thread *savedCur = cur; cur = &T;
  struct Restore { Thread *s; ~Restore() { cur = s; } } restore{savedCur};
  while (T.st.size() > base) {
    Frame *f = &T.st.back(); const DI *code = f->f->code.data(); Val *s = f->s;
    for (;;) {
      const DI &x = code[f->pc];
      if ((++instrCount & 0xFFFFF) == 0) { if (instrCount > instrCap) violation("nontermination", "no termination within " + std::to_string(instrCap) + " executed instructions"); stopCheck(); }
      switch (x.op) {
      case D_BIN: {
        unsigned w = x.w; bool dv = x.imm == O_UDIV || x.imm == O_SDIV || x.imm == O_UREM || x.imm == O_SREM;
        for (int i = 0; i < x.n; i++) {
          Val a = getv(*f, x.a, i), b = getv(*f, x.b, i); Val r;
          if (!a.s && !b.s) {
            u64 m = maskw(w); switch (x.imm) { case O_ADD: r = cval((a.v + b.v) & m); break; case O_SUB: r = cval((a.v - b.v) & m); break; case O_MUL: r = cval((a.v * b.v) & m); break; case O_AND: r = cval(a.v & b.v); break; case O_OR: r = cval(a.v | b.v); break; case O_XOR: r = cval(a.v ^ b.v); break;
            default: if (dv) divCheck(b, w); r = mkBin(x.imm, a, b, w); }
          } else { if (dv) divCheck(b, w); r = mkBin(x.imm, a, b, w); }
          s[x.dst + i] = r; }
        f->pc++; break; }
      case D_ICMP: {
        if (x.n == 1) { Val a = getv(*f, x.a), b = getv(*f, x.b);
          if (!a.s && !b.s) { u64 r = 0; unsigned w = x.w2; switch (x.imm) { case CmpInst::ICMP_EQ: r = a.v == b.v; break; case CmpInst::ICMP_NE: r = a.v != b.v; break; case CmpInst::ICMP_ULT: r = a.v < b.v; break; case CmpInst::ICMP_ULE: r = a.v <= b.v; break; case CmpInst::ICMP_UGT: r = a.v > b.v; break; case CmpInst::ICMP_UGE: r = a.v >= b.v; break; default: r = icmp(x.imm, a, b, w).v; } s[x.dst] = cval(r); }
          else s[x.dst] = icmp(x.imm, a, b, x.w2); }
        else for (int i = 0; i < x.n; i++) s[x.dst + i] = icmp(x.imm, getv(*f, x.a, i), getv(*f, x.b, i), x.w2);
        f->pc++; break; }
      case D_FBIN: {
        for (int i = 0; i < x.n; i++) { Val a = getv(*f, x.a, i), b = getv(*f, x.b, i);
          if (!a.s && !b.s && x.w == 64) { double p = b2d(a.v), q = b2d(b.v); double r; switch (x.imm) { case O_FADD: r = p + q; break; case O_FSUB: r = p - q; break; case O_FMUL: r = p * q; break; default: r = p / q; } s[x.dst + i] = cval(d2b(r)); }
          else s[x.dst + i] = fbin(x.imm, a, b, x.w); }
        f->pc++; break; }
      case D_FNEG: for (int i = 0; i < x.n; i++) { Val a = getv(*f, x.a, i); s[x.dst + i] = x.w == 64 ? mkF(O_FNEG, a, cval(0)) : cval(f2b(-b2f(a.v))); } f->pc++; break;
      case D_FCMP: for (int i = 0; i < x.n; i++) s[x.dst + i] = fcmp(x.imm, getv(*f, x.a, i), getv(*f, x.b, i), x.w2); f->pc++; break;
      case D_COPY: if (x.n == 1) s[x.dst] = getv(*f, x.a); else for (int i = 0; i < x.n; i++) s[x.dst + i] = getv(*f, x.a, i); f->pc++; break;
      case D_SELECT: { Val c = rs(getv(*f, x.a));
        for (int i = 0; i < x.n; i++) { if (x.imm) c = rs(getv(*f, x.a, i)); Val a = getv(*f, x.b, i), b = getv(*f, x.c, i);
          if (c.s && tainted(c) && c.s) {}
          s[x.dst + i] = mkIte(c, a, b, x.w ? x.w : 64, x.aux && x.w == 64); }
        f->pc++; break; }
      case D_ZEXT: for (int i = 0; i < x.n; i++) s[x.dst + i] = mkZext(getv(*f, x.a, i), x.w2, x.w); f->pc++; break;
      case D_SEXT: for (int i = 0; i < x.n; i++) s[x.dst + i] = mkSext(getv(*f, x.a, i), x.w2, x.w); f->pc++; break;
      case D_TRUNC: for (int i = 0; i < x.n; i++) s[x.dst + i] = mkExtract(getv(*f, x.a, i), x.w2, 0, x.w); f->pc++; break;
      case D_UITOFP: case D_SITOFP: for (int i = 0; i < x.n; i++) { Val r = int2f(getv(*f, x.a, i), x.w2, x.op == D_SITOFP); if (x.w == 32) { if (r.s) { pinData("integer converted to a symbolic float"); r = rs(r); } r = cval(f2b((float)b2d(r.v))); } f->s[x.dst + i] = r; } f->pc++; break;
      case D_FPTOUI: case D_FPTOSI: for (int i = 0; i < x.n; i++) { Val a = rs(getv(*f, x.a, i)); if (a.s) { if (N_[a.s].op == O_I2F) { Val in{0, N_[a.s].a}; unsigned wi = N_[in.s].w; s[x.dst + i] = wi == x.w ? in : wi < x.w ? mkZext(in, wi, x.w) : mkExtract(in, wi, 0, x.w); continue; } if (tainted(a)) { s[x.dst + i] = Val{0, newGarbage(x.w)}; continue; } pinData("data converted to an integer: " + pp(a, WF)); a = rs(a); } double dv = x.w2 == 64 ? b2d(a.v) : b2f(a.v); s[x.dst + i] = cval((x.op == D_FPTOUI ? (u64)dv : (u64)(int64_t)dv) & maskw(x.w)); } f->pc++; break;
      case D_FPEXT: for (int i = 0; i < x.n; i++) { Val a = rs(getv(*f, x.a, i)); if (a.s) { if (tainted(a)) { s[x.dst + i] = Val{0, newGarbage(64)}; continue; } pinData("symbolic float"); a = rs(a); } s[x.dst + i] = cval(d2b((double)b2f(a.v))); } f->pc++; break;
      case D_FPTRUNC: for (int i = 0; i < x.n; i++) { Val a = rs(getv(*f, x.a, i)); if (a.s) { if (tainted(a)) { s[x.dst + i] = Val{0, newGarbage(32)}; continue; } pinData("data rounded to single precision: " + pp(a, WF)); a = rs(a); } s[x.dst + i] = cval(f2b((float)b2d(a.v))); } f->pc++; break;
      case D_BITCAST: { // different lane counts: through little-endian concatenation
        int nd = x.n, nsrc = x.b; unsigned wd = x.w, ws = x.w2;
        if (nsrc > nd) { int r = nsrc / nd; if (wd > 64) engineError("wide bitcast"); for (int i = 0; i < nd; i++) { Val v = toBV(getv(*f, x.a, i * r)); unsigned w = ws; for (int j = 1; j < r; j++) { v = mkConcat(toBV(getv(*f, x.a, i * r + j)), ws, v, w); w += ws; } s[x.dst + i] = v; } }
        else { int r = nd / nsrc; for (int i = nsrc - 1; i >= 0; i--) { Val v = toBV(getv(*f, x.a, i)); for (int j = 0; j < r; j++) s[x.dst + i * r + j] = mkExtract(v, ws, j * wd, wd); } }
        f->pc++; break; }
      case D_ALLOCA: { u64 n = addrOf(getv(*f, x.a), "alloca count"); u64 a = allocObj(x.imm * n, x.aux, K_STACK, "stack"); f->allocas.push_back(a >> SH); s[x.dst] = cval(a); f->pc++; break; }
      case D_LOAD: {
        u64 ad = addrOf(getv(*f, x.a), "load address"); if (x.c && (ad & (x.c - 1))) violation("alignment", "aligned vector load of " + std::to_string(x.imm) + " bytes from an address that is not a multiple of " + std::to_string(x.c));
        if (x.w2) { atomicSync(ad, true, false); raceExempt++; }
        u64 off; Obj &o = locate(ad, x.imm, off, false); if (x.w2) raceExempt--;
        if (x.n == 1) { unsigned by = x.imm; if (by == 8 && (off & 7) == 0 && !(o.sym && o.sym[off >> 3]) && o.init[off >> 3] == 0xFF) s[x.dst] = cval(o.data[off >> 3]); else s[x.dst] = loadV(o, off, x.w, by); }
        else { const int *mk = f->f->memk[x.aux].data(); for (int i = 0; i < x.n; i++, mk += 3) s[x.dst + i] = loadV(o, off + mk[0], mk[1], mk[2]); }
        f->pc++; break; }
      case D_STORE: {
        u64 ad = addrOf(getv(*f, x.a), "store address"); if (x.c && (ad & (x.c - 1))) violation("alignment", "aligned vector store of " + std::to_string(x.imm) + " bytes to an address that is not a multiple of " + std::to_string(x.c));
        if (x.w2) { atomicSync(ad, false, true); raceExempt++; }
        u64 off; Obj &o = locate(ad, x.imm, off, true); if (x.w2) raceExempt--;
        if (x.n == 1) { Val v = getv(*f, x.b); unsigned by = x.imm; if (by * 8 > x.w && v.s) v = mkZext(v, x.w, by * 8); if (by == 8 && (off & 7) == 0 && !v.s) { u64 c = off >> 3; o.data[c] = v.v; o.init[c] = 0xFF; if (o.sym) o.sym[c] = 0; } else storeScalar(o, off, by, v); }
        else { const int *mk = f->f->memk[x.aux].data(); for (int i = 0; i < x.n; i++, mk += 3) { Val v = getv(*f, x.b, i); if (mk[2] * 8 > mk[1]) v = mkZext(v, mk[1], mk[2] * 8); storeScalar(o, off + mk[0], mk[2], v); } }
        f->pc++; break; }
      case D_GEPF: { Val p = getv(*f, x.a), i = getv(*f, x.b); const GepT &g = f->f->geps[x.aux][0];
        if (!p.s && !i.s) s[x.dst] = cval(p.v + x.imm + i.v * g.scale);
        else s[x.dst] = mkBin(O_ADD, mkBin(O_ADD, p, mkBin(O_MUL, i, cval(g.scale), 64), 64), cval(x.imm), 64);
        f->pc++; break; }
      case D_GEP: { Val p = getv(*f, x.a); if (x.imm) p = mkBin(O_ADD, p, cval(x.imm), 64); for (auto &g : f->f->geps[x.aux]) { Val i = getv(*f, g.op); if (g.w < 64) i = mkSext(i, g.w, 64); p = mkBin(O_ADD, p, mkBin(O_MUL, i, cval(g.scale), 64), 64); } s[x.dst] = p; f->pc++; break; }
      case D_BR: takeEdge(*f, x.aux, x.b); break;
      case D_CBR: { Val c = getv(*f, x.a); bool t = c.s ? decide(c) : (c.v & 1); if (t) takeEdge(*f, x.aux, x.b); else takeEdge(*f, (int)x.imm, x.c); break; }
      case D_SWITCH: { Val v = rs(getv(*f, x.a)); const SwI &sw = f->f->sws[x.aux]; int e = sw.defE, b = sw.defB;
        for (size_t i = 0; i < sw.cases.size(); i++) { Val eq = mkBin(O_EQ, v, cval(sw.cases[i].first), x.w2); if (decide(eq)) { e = sw.edges[i]; b = sw.cases[i].second; break; } }
        takeEdge(*f, e, b); break; }
      case D_RET: {
        Val tmp[64]; std::vector<Val> big; Val *tp = tmp; if (x.n > 64) { big.resize(x.n); tp = big.data(); }
        for (int i = 0; i < x.n; i++) tp[i] = getv(*f, x.a, i);
        int rd = f->retDst; int n = x.n; popFrame(T);
        if (T.st.size() == base) { nativeRet.assign(tp, tp + n); return DONE; }
        Frame &c = T.st.back(); if (rd >= 0) for (int i = 0; i < n; i++) c.s[rd + i] = tp[i];
        const DI &cd = c.f->code[c.pc]; const CallI &ci = c.f->calls[cd.aux]; if (ci.isInvoke) takeEdge(c, ci.normalE, ci.normalB); else c.pc++;
        goto next; }
      case D_CALL: {
        wantUnwind = wantBarrier = false; size_t depth = T.st.size(); doCall(T, *f, x);
        if (wantUnwind) { wantUnwind = false; if (!unwind(T, base)) return UNWIND; goto next; }
        if (wantBarrier) { wantBarrier = false; Frame &c = T.st.back(); c.pc++; return BARRIER; }
        if (T.st.size() != depth || f != &T.st.back()) goto next; // a frame was pushed
        break; }
      case D_UNREACH: violation("unreachable", "control reaches a point the source language declares unreachable (missing return or undefined behaviour)");
      case D_LPAD: s[x.dst] = cval(lpPtr); s[x.dst + 1] = cval(lpSel); f->pc++; break;
      case D_RESUME: { unwindingExc = getv(*f, x.a).v; 
        popFrame(T); if (T.st.size() == base) return UNWIND; if (!unwind(T, base)) return UNWIND; goto next; }
      case D_EXTELT: { u64 i = addrOf(getv(*f, x.b), "vector index"); if (i >= (u64)x.imm) violation("memory", "vector element index out of range"); s[x.dst] = getv(*f, x.a, i); f->pc++; break; }
      case D_INSELT: { u64 i = addrOf(getv(*f, x.c), "vector index"); Val v = getv(*f, x.b); for (int k = 0; k < x.n; k++) s[x.dst + k] = getv(*f, x.a, k); if (i < (u64)x.n) s[x.dst + i] = v; f->pc++; break; }
      case D_SHUF: { const auto &m = f->f->shufs[x.aux]; Val t[64]; for (int k = 0; k < x.n; k++) { int j = m[k]; t[k] = j < 0 ? Val{0, newGarbage(x.w)} : j < x.imm ? getv(*f, x.a, j) : getv(*f, x.b, j - x.imm); } for (int k = 0; k < x.n; k++) s[x.dst + k] = t[k]; f->pc++; break; }
      case D_INSVAL: { Val t[8]; std::vector<Val> big; Val *tp = t; if (x.c > 8) { big.resize(x.c); tp = big.data(); } for (int k = 0; k < x.c; k++) tp[k] = getv(*f, x.b, k); for (int k = 0; k < x.n; k++) s[x.dst + k] = getv(*f, x.a, k); for (int k = 0; k < x.c; k++) s[x.dst + x.imm + k] = tp[k]; f->pc++; break; }
      case D_RMW: { u64 ad = addrOf(getv(*f, x.a), "atomic address"); unsigned by = (x.w + 7) / 8; atomicSync(ad, true, true); raceExempt++; Val o = loadAt(ad, by), v = getv(*f, x.b), r = v; 
        switch (x.imm) { case AtomicRMWInst::Xchg: break; case AtomicRMWInst::Add: r = mkBin(O_ADD, o, v, x.w); break; case AtomicRMWInst::Sub: r = mkBin(O_SUB, o, v, x.w); break; case AtomicRMWInst::And: r = mkBin(O_AND, o, v, x.w); break; case AtomicRMWInst::Or: r = mkBin(O_OR, o, v, x.w); break; case AtomicRMWInst::Xor: r = mkBin(O_XOR, o, v, x.w); break; case AtomicRMWInst::FAdd: r = fbin(O_FADD, o, v, x.w); break; case AtomicRMWInst::FSub: r = fbin(O_FSUB, o, v, x.w); break; default: engineError("atomic operation"); }
        storeAt(ad, by, r); raceExempt--; s[x.dst] = o; f->pc++; break; }
      case D_CMPXCHG: { u64 ad = addrOf(getv(*f, x.a), "atomic address"); unsigned by = (x.w + 7) / 8; atomicSync(ad, true, true); raceExempt++; Val o = loadAt(ad, by); Val e = getv(*f, x.b); bool eq = (o.s && o.s == e.s) || decide(mkBin(O_EQ, o, e, x.w)); if (eq) storeAt(ad, by, getv(*f, x.c)); raceExempt--; s[x.dst] = o; s[x.dst + 1] = cval(eq); f->pc++; break; }
      case D_NOP: f->pc++; break;
      default: engineError("bad opcode");
      }
    }
  next:;
  }
  return DONE;
}
static void finishCall(Frame &f, const DI &di, const CallI &ci) { if (ci.isInvoke) takeEdge(f, ci.normalE, ci.normalB); else f.pc++; (void)di; }
static DFunc *funcAt(u64 a) { if ((a >> SH) != fnId) return nullptr; u64 o = a & OMASK; if (o < 0x1000000 || (o & 15)) return nullptr; u64 k = (o - 0x1000000) / 16; return k < dfv.size() ? dfv[k] : nullptr; }
static void inlineAsm(Frame &f, const DI &di, const CallI &ci, std::vector<Val> &a);
static void doCall(Thread &T, Frame &f, const DI &di) {
  const CallI &ci = f.f->calls[di.aux]; Val tmp[64]; std::vector<Val> big; int tot = 0; for (int n : ci.argn) tot += n; Val *a = tmp; if (tot > 64) { big.resize(tot); a = big.data(); }
  int k = 0; for (size_t i = 0; i < ci.args.size(); i++) for (int j = 0; j < ci.argn[i]; j++) a[k++] = getv(f, ci.args[i], j);
  int bi = ci.bi; DFunc *d = ci.callee;
  if (bi == -2) { std::vector<Val> av(a, a + tot); inlineAsm(f, di, ci, av); finishCall(f, di, ci); return; }
  if (!d) {
    u64 fa = addrOf(getv(f, ci.calleeOp), "called function"); d = funcAt(fa); if (!d) violation("memory", "call through an invalid function pointer " + hex(fa));
    bi = d->bi >= 0 ? d->bi : lookupBuiltin(d->name); if (bi < 0 && (!d->F || d->F->isDeclaration())) bi = -3;
  }
  if (bi >= 0) {
    Val ret[64]; for (int i = 0; i < di.n && i < 64; i++) ret[i] = cval(0);
    size_t depth = T.st.size(); builtins[bi].fn(ci, di, a, ret);
    if (wantUnwind) return;
    if (T.st.size() != depth) return;
    Frame &g = T.st.back(); if (di.dst >= 0) for (int i = 0; i < di.n; i++) g.s[di.dst + i] = ret[i];
    if (wantBarrier) return;
    finishCall(g, di, ci); return;
  }
  if (bi == -3) engineError("call of unmodelled external function " + d->name + " (" + demangle(d->name) + ")");
  for (size_t i = 0; i < ci.byval.size(); i++) if (ci.byval[i]) {
    int pos = 0; for (size_t j = 0; j < i; j++) pos += ci.argn[j]; u64 o = allocObj(ci.byval[i], 16, K_STACK, "by-value argument"); copyMem(o, addrOf(a[pos], "by-value argument"), ci.byval[i]); f.allocas.push_back(o >> SH); a[pos] = cval(o); }
  pushFrame(T, d, a, d->F ? std::min(tot, (int)[&] { int n = 0; for (auto &A : d->F->args()) n += ncomp(A.getType()); return n; }()) : tot, di.dst, di.n);
}
static std::vector<Val> callNative(DFunc *d, std::vector<Val> args) {
  Thread t; t.tid = 0; decode(d); pushFrame(t, d, args.data(), args.size(), -1, 0); RunR r = run(t, 0); if (r == UNWIND) violation("terminate", "uncaught exception " + excName(unwindingExc)); return nativeRet;
}
#include "builtins.inc"
