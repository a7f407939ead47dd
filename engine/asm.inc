// Inline assembly (x86-64, AT&T syntax): the instructions used for vector arithmetic and simple loops. Anything else
// is an engine error, never ignored.
struct AsmIns { std::string op; std::vector<std::string> o; };
struct AsmProg { std::vector<AsmIns> ins; std::map<std::string, std::vector<int>> labels; };
static AsmProg &asmParse(const InlineAsm *ia) {
  static std::map<const InlineAsm *, AsmProg> cache; auto it = cache.find(ia); if (it != cache.end()) return it->second;
  AsmProg &p = cache[ia]; std::string s = ia->getAsmString(); std::vector<std::string> st; std::string c;
  for (size_t i = 0; i < s.size(); i++) { if (s[i] == '#') { while (i < s.size() && s[i] != '\n') i++; } if (i >= s.size() || s[i] == '\n' || s[i] == ';') { st.push_back(c); c.clear(); } else c += s[i] == '\t' ? ' ' : s[i]; } st.push_back(c);
  auto trim = [](std::string x) { size_t a = x.find_first_not_of(" \r"), b = x.find_last_not_of(" \r"); return a == std::string::npos ? std::string() : x.substr(a, b - a + 1); };
  for (auto l : st) {
    l = trim(l); size_t k; while ((k = l.find(':')) != std::string::npos && l.find('{') == std::string::npos && l.find(' ') > k) { p.labels[l.substr(0, k)].push_back(p.ins.size()); l = trim(l.substr(k + 1)); }
    if (l.empty()) continue; AsmIns x; size_t sp = l.find(' '); x.op = l.substr(0, sp); std::string r = sp == std::string::npos ? "" : trim(l.substr(sp)), w; int par = 0;
    for (char ch : r) { if (ch == '(') par++; if (ch == ')') par--; if (ch == ',' && !par) { x.o.push_back(trim(w)); w.clear(); } else w += ch; } if (!trim(w).empty()) x.o.push_back(trim(w));
    p.ins.push_back(x);
  }
  return p;
}
struct AsmOp { bool mem = false; Val v{}; unsigned w = 64; u64 addr = 0; std::vector<Val> vec; bool isVec = false; };
static void inlineAsm(Frame &f, const DI &di, const CallI &ci, std::vector<Val> &a) {
  std::string text = ci.ia->getAsmString(); bool blank = true; for (char c : text) if (!isspace((unsigned char)c)) blank = false;
  if (blank && di.n == 0) return;
  auto bad = [&](const std::string &w) { engineError("inline assembly is not modelled: " + w); };
  AsmProg &P = asmParse(ci.ia); auto *CB = dyn_cast<CallBase>(di.src); if (!CB) bad("no call");
  for (unsigned i = 0; i < CB->arg_size(); i++) if (CB->getArgOperand(i)->getType()->isVectorTy() || CB->getArgOperand(i)->getType()->isAggregateType()) bad("vector operand");
  std::vector<AsmOp> ops; std::vector<int> outs; unsigned ai = 0; std::vector<Type *> rt; if (auto *ST = dyn_cast<StructType>(CB->getType())) for (auto *t : ST->elements()) rt.push_back(t); else if (!CB->getType()->isVoidTy()) rt.push_back(CB->getType());
  for (auto &c : ci.ia->ParseConstraints()) {
    if (c.Type == InlineAsm::isClobber) continue; if (c.Type == InlineAsm::isLabel) bad("asm goto");
    AsmOp o; std::string code = c.Codes.empty() ? "" : c.Codes[0]; bool tied = c.Type == InlineAsm::isInput && !code.empty() && isdigit((unsigned char)code[0]);
    if (c.isIndirect) { o.mem = true; o.addr = addrOf(a[ai++], "asm operand"); ops.push_back(o); continue; }
    if (c.Type == InlineAsm::isOutput) { if (outs.size() >= rt.size()) bad("outputs"); Type *t = rt[outs.size()]; if (!t->isIntegerTy() && !t->isPointerTy()) bad("output type"); o.w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); o.v = cval(0); outs.push_back(ops.size()); ops.push_back(o); continue; }
    Type *t = CB->getArgOperand(ai)->getType(); if (!t->isIntegerTy() && !t->isPointerTy()) bad("input type"); o.w = t->isPointerTy() ? 64 : t->getIntegerBitWidth(); o.v = rs(a[ai++]);
    if (tied) { ops[atoi(code.c_str())].v = o.v; } ops.push_back(o);
  }
  std::map<std::string, Val> gpr; std::map<std::string, std::vector<Val>> vr; Val fa{}, fb{}; unsigned fw = 0; bool fsub = true;
  auto canon = [&](const std::string &n, unsigned &w) -> std::string { // name of the 64-bit register and the width
    static const std::map<std::string, std::string> b = {{"ax", "rax"}, {"bx", "rbx"}, {"cx", "rcx"}, {"dx", "rdx"}, {"si", "rsi"}, {"di", "rdi"}};
    if (n.size() == 3 && n[0] == 'r' && b.count(n.substr(1))) { w = 64; return n; } if (n.size() == 3 && n[0] == 'e' && b.count(n.substr(1))) { w = 32; return "r" + n.substr(1); }
    if (n[0] == 'r' && isdigit((unsigned char)n[1])) { if (n.back() == 'd') { w = 32; return n.substr(0, n.size() - 1); } if (isdigit((unsigned char)n.back())) { w = 64; return n; } } bad("register " + n); return ""; };
  auto opnum = [&](const std::string &s, unsigned &mod) -> int { mod = 0; if (s.size() < 2 || s[0] != '$') return -1; std::string t = s.substr(1); if (t[0] == '{') { size_t c = t.find(':'); std::string d = t.substr(1, (c == std::string::npos ? t.find('}') : c) - 1); if (c != std::string::npos) mod = t[c + 1]; return atoi(d.c_str()); } if (!isdigit((unsigned char)t[0])) return -1; return atoi(t.c_str()); };
  auto reg64 = [&](const std::string &s) -> Val { unsigned m; int k = opnum(s, m); if (k >= 0) { if (k >= (int)ops.size() || ops[k].mem) bad("address operand " + s); return ops[k].w == 64 ? ops[k].v : mkZext(ops[k].v, ops[k].w, 64); } if (s.empty() || s[0] != '%') bad("address operand " + s); unsigned w; std::string n = canon(s.substr(1), w); if (w != 64) bad("32-bit address"); return gpr.count(n) ? gpr[n] : cval(0); };
  auto isMem = [&](const std::string &s) { unsigned m; int k = opnum(s, m); if (k >= 0 && s.find('(') == std::string::npos) return k < (int)ops.size() && ops[k].mem; return s.find('(') != std::string::npos; };
  auto memAddr = [&](const std::string &s) -> u64 {
    size_t k = s.find('('); if (k == std::string::npos) { unsigned m; return ops[opnum(s, m)].addr; }
    std::string d = s.substr(0, k), in = s.substr(k + 1, s.rfind(')') - k - 1); std::vector<std::string> q; std::string w; for (char c : in) { if (c == ',') { q.push_back(w); w.clear(); } else if (c != ' ') w += c; } q.push_back(w);
    Val r = cval(d.empty() ? 0 : (u64)strtoll(d.c_str(), 0, 0)); if (!q[0].empty()) r = mkBin(O_ADD, r, reg64(q[0]), 64); if (q.size() > 1 && !q[1].empty()) r = mkBin(O_ADD, r, mkBin(O_MUL, reg64(q[1]), cval(q.size() > 2 ? strtoull(q[2].c_str(), 0, 0) : 1), 64), 64);
    return addrOf(r, "asm address"); };
  auto getI = [&](const std::string &s, unsigned w) -> Val { // integer operand of width w
    if (s.size() > 2 && s[0] == '$' && s[1] == '$') return cval((u64)strtoll(s.c_str() + 2, 0, 0) & (w == 64 ? ~0ull : (1ull << w) - 1));
    if (isMem(s)) return loadAt(memAddr(s), w / 8); unsigned m; int k = opnum(s, m); if (k >= 0) { if (k >= (int)ops.size()) bad(s); AsmOp &o = ops[k]; return o.w == w ? o.v : o.w > w ? mkExtract(o.v, o.w, 0, w) : mkZext(o.v, o.w, w); }
    if (s[0] != '%') bad("operand " + s); unsigned rw; std::string n = canon(s.substr(1), rw); Val v = gpr.count(n) ? gpr[n] : cval(0); return w == 64 ? v : mkExtract(v, 64, 0, w); };
  auto setI = [&](const std::string &s, unsigned w, Val v) {
    if (isMem(s)) { storeAt(memAddr(s), w / 8, v); return; } unsigned m; int k = opnum(s, m); if (k >= 0) { if (k >= (int)ops.size()) bad(s); AsmOp &o = ops[k]; o.v = o.w == w ? v : o.w > w ? mkZext(v, w, o.w) : mkExtract(v, w, 0, o.w); return; }
    if (s[0] != '%') bad("operand " + s); unsigned rw; std::string n = canon(s.substr(1), rw); gpr[n] = w == 64 ? v : mkZext(v, w, 64); };
  auto widthOf = [&](const std::string &op, size_t base, const AsmIns &x) -> unsigned { if (op.size() > base) { if (op[base] == 'q') return 64; if (op[base] == 'l') return 32; bad(op); } for (auto &o : x.o) if (o[0] == '%') { unsigned w; canon(o.substr(1), w); return w; } for (auto &o : x.o) { unsigned m; int k = opnum(o, m); if (k >= 0 && !ops[k].mem) return m == 'k' ? 32 : m == 'q' ? 64 : ops[k].w; } bad("width of " + op); return 64; };
  auto vreg = [&](const std::string &s) -> std::string { if (s.size() < 5 || s[0] != '%' || (s.compare(1, 3, "ymm") && s.compare(1, 3, "xmm"))) bad("vector register " + s); if (s[1] == 'x') bad("xmm register"); return s.substr(4); };
  auto loadVec = [&](const std::string &s, bool al) -> std::vector<Val> {
    if (!isMem(s)) { std::string n = vreg(s); auto it = vr.find(n); if (it == vr.end()) bad("vector register " + s + " is read before it is written"); return it->second; }
    u64 ad = memAddr(s); if (al && (ad & 31)) violation("alignment", "aligned vector load of 32 bytes from an address that is not a multiple of 32"); std::vector<Val> r; u64 off; locate(ad, 32, off, false); for (int i = 0; i < 4; i++) r.push_back(loadAt(ad + 8 * i, 8)); return r; };
  int pc = 0; u64 steps = 0;
  while (pc < (int)P.ins.size()) {
    AsmIns &x = P.ins[pc]; const std::string &op = x.op; pc++; instrCount++; if (++steps > 50000000) violation("nontermination", "inline assembly does not end");
    auto pre = [&](const char *n) { size_t l = strlen(n); return op.compare(0, l, n) == 0 && (op.size() == l || (op.size() == l + 1 && (op[l] == 'q' || op[l] == 'l'))); };
    if (op == "vmovapd" || op == "vmovupd" || op == "vmovaps" || op == "vmovups" || op == "vmovdqa" || op == "vmovdqu" || op == "vmovntpd") {
      if (x.o.size() != 2) bad(op); bool al = op[4] == 'a' || op == "vmovdqa" || op == "vmovntpd"; std::vector<Val> v = loadVec(x.o[0], al);
      if (isMem(x.o[1])) { u64 ad = memAddr(x.o[1]); if (al && (ad & 31)) violation("alignment", "aligned vector store of 32 bytes to an address that is not a multiple of 32"); u64 off; locate(ad, 32, off, true); for (int i = 0; i < 4; i++) storeAt(ad + 8 * i, 8, v[i]); } else vr[vreg(x.o[1])] = v; continue; }
    if (op == "vmulpd" || op == "vaddpd" || op == "vsubpd") { if (x.o.size() != 3) bad(op); auto s1 = loadVec(x.o[0], false), s2 = loadVec(x.o[1], false); std::vector<Val> r; for (int i = 0; i < 4; i++) r.push_back(mkF(op[1] == 'm' ? O_FMUL : op[1] == 'a' ? O_FADD : O_FSUB, s2[i], s1[i])); vr[vreg(x.o[2])] = r; continue; }
    if (op == "vfmadd231pd" || op == "vfmadd213pd" || op == "vfmadd132pd") { if (x.o.size() != 3) bad(op); auto s3 = loadVec(x.o[0], false), s2 = loadVec(x.o[1], false), d = loadVec(x.o[2], false); std::vector<Val> r; for (int i = 0; i < 4; i++) r.push_back(op[6] == '2' && op[7] == '3' ? mkF(O_FADD, mkF(O_FMUL, s2[i], s3[i]), d[i]) : op[6] == '2' ? mkF(O_FADD, mkF(O_FMUL, s2[i], d[i]), s3[i]) : mkF(O_FADD, mkF(O_FMUL, d[i], s3[i]), s2[i])); vr[vreg(x.o[2])] = r; continue; }
    if (op == "vxorpd" || op == "vpxor") { if (x.o.size() != 3 || x.o[0] != x.o[1]) bad(op + " of different registers"); vr[vreg(x.o[2])] = std::vector<Val>(4, cval(0)); continue; }
    if (op == "vbroadcastsd") { if (!isMem(x.o[0])) bad(op); Val v = loadAt(memAddr(x.o[0]), 8); vr[vreg(x.o[1])] = std::vector<Val>(4, v); continue; }
    if (op == "vzeroupper" || op == "nop") continue;
    if (pre("mov")) { unsigned w = widthOf(op, 3, x); setI(x.o[1], w, getI(x.o[0], w)); continue; }
    if (pre("lea")) { unsigned w = widthOf(op, 3, x); Val v = cval(memAddr(x.o[0])); setI(x.o[1], w, w == 64 ? v : mkExtract(v, 64, 0, w)); continue; }
    if (pre("add") || pre("sub") || pre("and") || pre("or") || pre("xor") || pre("imul")) {
      std::string b = pre("imul") ? "imul" : pre("or") ? "or" : op.substr(0, 3); unsigned w = widthOf(op, b.size(), x); if (x.o.size() != 2) bad(op); Val s1 = getI(x.o[0], w), d = getI(x.o[1], w); uint8_t k = b == "add" ? O_ADD : b == "sub" ? O_SUB : b == "and" ? O_AND : b == "or" ? O_OR : b == "xor" ? O_XOR : O_MUL; Val r = b == "xor" && x.o[0] == x.o[1] ? cval(0) : mkBin(k, d, s1, w); setI(x.o[1], w, r);
      if (b == "sub") { fa = d; fb = s1; fsub = true; fw = w; } else if (b == "imul") fw = 0; else { fa = r; fb = cval(0); fsub = b == "and" || b == "or" || b == "xor"; fw = w; } continue; }
    if (pre("inc") || pre("dec")) { unsigned w = widthOf(op, 3, x); Val r = mkBin(op[0] == 'i' ? O_ADD : O_SUB, getI(x.o[0], w), cval(1), w); setI(x.o[0], w, r); fa = r; fb = cval(0); fsub = false; fw = w; continue; }
    if (pre("cmp")) { fw = widthOf(op, 3, x); fb = getI(x.o[0], fw); fa = getI(x.o[1], fw); fsub = true; continue; }
    if (pre("test")) { fw = widthOf(op, 4, x); if (x.o[0] != x.o[1]) bad("test of different registers"); fa = getI(x.o[0], fw); fb = cval(0); fsub = true; continue; }
    if (op[0] == 'j') {
      bool take = true; std::string c = op.substr(1);
      if (c != "mp") { if (!fw) bad("condition without flags"); Val r{}; bool neg = false; bool eqOnly = false;
        if (c == "e" || c == "z" || c == "ne" || c == "nz") { r = mkBin(O_EQ, fa, fb, fw); neg = c[0] == 'n'; eqOnly = true; } else if (c == "l" || c == "nge" || c == "ge" || c == "nl") { r = mkBin(O_SLT, fa, fb, fw); neg = c == "ge" || c == "nl"; } else if (c == "le" || c == "ng" || c == "g" || c == "nle") { r = mkBin(O_SLE, fa, fb, fw); neg = c == "g" || c == "nle"; }
        else if (c == "b" || c == "c" || c == "nae" || c == "ae" || c == "nc" || c == "nb") { r = mkBin(O_ULT, fa, fb, fw); neg = c == "ae" || c == "nc" || c == "nb"; } else if (c == "be" || c == "na" || c == "a" || c == "nbe") { r = mkBin(O_ULE, fa, fb, fw); neg = c == "a" || c == "nbe"; } else if (fsub && (c == "s" || c == "ns")) bad(op); else bad(op);
        if (!fsub && !eqOnly) bad(op + " after an instruction other than cmp, sub or test"); take = decide(r) != neg; }
      if (take) { const std::string &l = x.o[0]; int to = -1; if (l.size() > 1 && isdigit((unsigned char)l[0]) && (l.back() == 'b' || l.back() == 'f')) { for (int q : P.labels[l.substr(0, l.size() - 1)]) { if (l.back() == 'b' && q < pc) to = q; if (l.back() == 'f' && q >= pc && to < 0) to = q; } } else if (P.labels.count(l)) to = P.labels[l][0]; if (to < 0) bad("label " + l); pc = to; }
      continue; }
    bad(op + " in: " + text.substr(0, 100));
  }
  for (size_t k = 0; k < outs.size(); k++) f.s[di.dst + k] = ops[outs[k]].v;
}
