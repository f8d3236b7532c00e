struct SumCtx { bool bail = false; std::vector<std::pair<std::vector<E>, uint64_t>> leaves; };
static void sumBail() { g_sum->bail = true; }
// interpreter, module loading, scheduling (included by symir.cpp)

// ------------------------------------------------------------------ frames
static void pushFrame(DFunc *f, const std::vector<Val> &args, int dest, int boundary) {
  State *st = cur; decode(f);
  uint32_t base = st->fr.empty() ? 0 : st->fr.back().base + st->fr.back().f->nslots;
  if (st->fr.size() > 4000) memErr("stack overflow (recursion deeper than 4000 frames)");
  if (st->loc.size() < base + f->nslots) st->loc.resize(base + f->nslots + 64);
  for (size_t i = 0; i < f->argw.size(); i++) st->loc[base + i] = i < args.size() ? args[i] : cv(0);
  Frame fr; fr.f = f; fr.pc = 0; fr.base = base; fr.allocBase = st->allocas.size(); fr.boundary = boundary; fr.dest = dest;
  st->fr.push_back(fr);
  if (f->fid < (uint32_t)MAXFN) S->fn[f->fid]++;
}
static void popFrame() {
  State *st = cur; Frame &f = st->fr.back();
  while (st->allocas.size() > f.allocBase) { st->mem.set(st->allocas.back(), nullptr); st->allocas.pop_back(); }
  st->fr.pop_back();
}
static void openStd() {
  cur->open.clear();
  const char *nm[3] = {"STDIN", "STDOUT", "STDERR"};
  for (int i = 0; i < 3; i++) { OpenFile f; f.handle = ID_STDIN + i; f.name = nm[i]; f.pos = 0; f.rd = i == 0; f.wr = i > 0; f.append = i > 0; f.open = true; f.eof = false; cur->open.push_back(f); }
}
static void finishExec() {
  ExecCtx &x = cur->execs.back();
  for (uint32_t id = x.firstObj; id < cur->nextObj; id++) { Obj *o = cur->mem.r(id); if (o && o->kind != K_FILE) cur->mem.set(id, nullptr); }
  cur->open = x.saved;
  cur->execs.pop_back();
}
static void startExec(const Str &tool, const std::vector<std::vector<Val>> &argv, int dest) {
  auto it = g_toolMod.find(tool);
  if (it == g_toolMod.end()) fatal("no such tool: " + tool);
  ModInfo *M = g_mods[it->second];
  auto mf = M->fns.find("main"); if (mf == M->fns.end()) fatal("tool without main");
  ExecCtx x; x.tool = tool; x.firstObj = cur->nextObj; x.saved = cur->open; x.savedStdinPos = 0; x.module = it->second;
  cur->execs.push_back(x);
  for (auto &p : M->inits) { p.second->rc++; cur->mem.set(p.first, p.second); }
  makeFile("STDOUT"); makeFile("STDERR"); openStd();
  std::vector<uint64_t> ptr;
  { std::vector<Val> b; for (unsigned char c : tool) b.push_back(cv(c)); b.push_back(cv(0)); ptr.push_back(allocBytes(b)); }
  for (auto &s : argv) { std::vector<Val> b = s; b.push_back(cv(0)); ptr.push_back(allocBytes(b)); }
  uint64_t arr = allocObj(8 * (ptr.size() + 1), K_HEAP, false);
  for (size_t i = 0; i < ptr.size(); i++) storeMem(cv(arr + 8 * i), cv(ptr[i]), 64);
  cur->fr.back().pc++;
  cur->budgetStart = cur->instrs;
  pushFrame(mf->second, {cv(ptr.size()), cv(arr), cv(0)}, dest, 1);
  frameChanged = true;
}
static Val fitW(Val v, unsigned w) {
  if (!w) return v;
  if (!v.e) { v.v &= maskw(w); return v; }
  if (v.e->w > w) return fromE(mkExtract(v.e, 0, w));
  if (v.e->w < w) return fromE(mkZext(v.e, w));
  return v;
}
static void setDest(int dest, Val v) { if (dest >= 0 && !cur->fr.empty()) cur->loc[cur->fr.back().base + dest] = v; }
static void endPath();
static void unwindTo(int, Val status) {
  frameChanged = true;
  while (!cur->fr.empty() && !cur->fr.back().boundary) popFrame();
  if (cur->fr.empty()) { endPath(); throw PathEnd{0}; }
  int b = cur->fr.back().boundary, dest = cur->fr.back().dest; popFrame();
  Val s = status; s = fitW(s, 32);
  if (s.e) s = fromE(mkBin(O_AND, s.e, mkConst(255, 32))); else s.v &= 255;
  if (b == 1) { finishExec(); cur->statuses.push_back(s); setDest(dest, s); }
  else { setDest(dest, s.e ? fromE(mkBin(O_ADD, s.e, mkConst(1, 32))) : cv(s.v + 1)); }
}
static Val n_sym_catch(std::vector<Val> &a, CallT &) {
  uint64_t f = concV(a[0]); auto it = g_funcById.find(f >> 32); if (it == g_funcById.end()) fatal("sym_catch: bad function");
  int dest = pendingDest; cur->fr.back().pc++; cur->budgetStart = cur->instrs;
  pushFrame(it->second, {a[1]}, dest, 2); frameChanged = true; return cv(0);
}
static void doRet(Val v, unsigned w) {
  Frame f = cur->fr.back(); popFrame();
  if (f.boundary == 3) { if (v.e) g_sum->bail = true; std::vector<E> pcs; for (PC *p = cur->pc; p; p = p->prev) pcs.push_back(p->e); g_sum->leaves.push_back({pcs, v.v}); throw PathEnd{9}; }
  if (f.boundary == 1) { finishExec(); v = fitW(v, 32); v = v.e ? fromE(mkBin(O_AND, v.e, mkConst(255, 32))) : cv(v.v & 255); cur->statuses.push_back(v); setDest(f.dest, v); }
  else if (f.boundary == 2) setDest(f.dest, cv(0));
  else if (cur->fr.empty()) { endPath(); throw PathEnd{0}; }
  else if (f.dest >= 0) setDest(f.dest, v);
}

// ------------------------------------------------------------------ floating point
static double D(uint64_t v) { double x; memcpy(&x, &v, 8); return x; }
static uint64_t UD(double x) { uint64_t v; memcpy(&v, &x, 8); return v; }
static bool fIsInt(Val v, E &out) { // exactly representable integer value
  if (v.e) { if (v.e->op == O_FRAT && isC(v.e->b) && v.e->b->c == 1) { out = v.e->a; return true; } return false; }
  double x = D(v.v); if (x == floor(x) && fabs(x) < 4503599627370496.0 && !(x == 0 && std::signbit(x))) { out = mkConst((uint64_t)(int64_t)x, 64); return true; }
  return false;
}
static bool smallAbs(E e, uint64_t lim) { // |e| < lim decided by the solver
  if (e->hi < lim) return true;
  return decide(mkUlt(mkBin(O_ADD, e, mkConst(lim - 1, 64)), mkConst(2 * lim - 1, 64)));
}
static Val mkF(E a, E b) { if (isC(a) && isC(b)) return cv(UD((double)(int64_t)a->c / (double)(int64_t)b->c)); return Val{0, mkFrat(a, b)}; }
static Val fbinop(unsigned op, Val a, Val b, unsigned w) {
  if (w == 64 && (a.e || b.e)) {
    E x, y;
    if (fIsInt(a, x) && fIsInt(b, y)) {
      const uint64_t L = 1ull << 53;
      if (op == Instruction::FAdd || op == Instruction::FSub || op == Instruction::FMul) {
        E r = nullptr;
        if (op != Instruction::FMul) { if (smallAbs(x, L / 2) && smallAbs(y, L / 2)) r = mkBin(op == Instruction::FAdd ? O_ADD : O_SUB, x, y); }
        else if (isC(y) || isC(x)) { uint64_t k = (int64_t)(isC(y) ? y->c : x->c) < 0 ? -(isC(y) ? y->c : x->c) : (isC(y) ? y->c : x->c); if (k && smallAbs(isC(y) ? x : y, L / k)) r = mkBin(O_MUL, x, y); else if (!k) r = mkConst(0, 64); }
        else if (smallAbs(x, 1ull << 26) && smallAbs(y, 1ull << 26)) r = mkBin(O_MUL, x, y);
        if (r) return mkF(r, mkConst(1, 64));
      } else if (op == Instruction::FDiv) {
        if (smallAbs(x, L) && smallAbs(y, L)) {
          if (decide(mkSlt(mkConst(0, 64), y))) return mkF(x, y);
        }
      }
    } else if (op == Instruction::FMul && !b.e && a.e && a.e->op == O_FRAT && 0) {}
    if (w == 64 && ((!a.e && std::isnan(D(a.v))) || (!b.e && std::isnan(D(b.v))))) return !a.e && std::isnan(D(a.v)) ? a : b;
    if (g_real && op != Instruction::FRem) {
      E u = toE(a, 64), v = toE(b, 64);
      E yi = nullptr;
      if (op == Instruction::FDiv && b.e && decide(fIsInt(b, yi) ? mkEq(yi, mkConst(0, 64)) : mkFcmp(2, v, mkConst(0, 64)))) { a = cv(concV(a)); b = cv(concV(b)); }
      else return fromE(mkFop(op == Instruction::FAdd ? 0 : op == Instruction::FSub ? 1 : op == Instruction::FMul ? 2 : 3, u, v));
    }
    a = cv(concV(a)); b = cv(concV(b));
  } else { a = cv(concV(a)); b = cv(concV(b)); }
  if (w == 64) {
    double x = D(a.v), y = D(b.v), r;
    switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmod(x, y); }
    return cv(UD(r));
  }
  float x, y, r; uint32_t xa = a.v, yb = b.v; memcpy(&x, &xa, 4); memcpy(&y, &yb, 4);
  switch (op) { case Instruction::FAdd: r = x + y; break; case Instruction::FSub: r = x - y; break; case Instruction::FMul: r = x * y; break; case Instruction::FDiv: r = x / y; break; default: r = fmodf(x, y); }
  uint32_t rr; memcpy(&rr, &r, 4); return cv(rr);
}
static bool fcmpC(unsigned p, double x, double y) {
  bool un = std::isnan(x) || std::isnan(y);
  switch (p) {
  case CmpInst::FCMP_FALSE: return false; case CmpInst::FCMP_TRUE: return true;
  case CmpInst::FCMP_OEQ: return !un && x == y; case CmpInst::FCMP_OGT: return !un && x > y; case CmpInst::FCMP_OGE: return !un && x >= y; case CmpInst::FCMP_OLT: return !un && x < y; case CmpInst::FCMP_OLE: return !un && x <= y; case CmpInst::FCMP_ONE: return !un && x != y; case CmpInst::FCMP_ORD: return !un;
  case CmpInst::FCMP_UNO: return un; case CmpInst::FCMP_UEQ: return un || x == y; case CmpInst::FCMP_UGT: return un || x > y; case CmpInst::FCMP_UGE: return un || x >= y; case CmpInst::FCMP_ULT: return un || x < y; case CmpInst::FCMP_ULE: return un || x <= y; case CmpInst::FCMP_UNE: return un || x != y;
  }
  return false;
}
static Val fcmpop(unsigned p, Val a, Val b, unsigned w) {
  if (w == 64 && (a.e || b.e)) {
    E an = nullptr, ad = nullptr, bn = nullptr, bd = nullptr;
    if (a.e && a.e->op == O_FRAT) { an = a.e->a; ad = a.e->b; } else if (fIsInt(a, an)) ad = mkConst(1, 64);
    if (b.e && b.e->op == O_FRAT) { bn = b.e->a; bd = b.e->b; } else if (fIsInt(b, bn)) bd = mkConst(1, 64);
    if (an && bn) {
      bool exact = (isC(ad) && ad->c == 1 && isC(bd) && bd->c == 1);
      if (!exact) { // one side must be a small integer constant: rounding cannot cross it
        bool ok = (isC(bn) && isC(bd) && bd->c == 1 && bn->c < 4096) || (isC(an) && isC(ad) && ad->c == 1 && an->c < 4096);
        if (ok && ad->hi < (1ull << 40) && bd->hi < (1ull << 40)) exact = true;
      }
      if (exact) {
        E l = isC(bd) && bd->c == 1 ? an : mkBin(O_MUL, an, bd), r = isC(ad) && ad->c == 1 ? bn : mkBin(O_MUL, bn, ad);
        E c = nullptr;
        switch (p) {
        case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: c = mkEq(l, r); break; case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: c = mkNot(mkEq(l, r)); break;
        case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: c = mkSlt(r, l); break; case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: c = mkSle(r, l); break;
        case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: c = mkSlt(l, r); break; case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: c = mkSle(l, r); break;
        case CmpInst::FCMP_ORD: c = mkConst(1, 1); break; case CmpInst::FCMP_UNO: c = mkConst(0, 1); break; default: break;
        }
        if (c) return fromE(c);
      }
    }
  }
  if (w == 64 && ((!a.e && b.e && std::isnan(D(a.v))) || (a.e && !b.e && std::isnan(D(b.v))))) return cv(fcmpC(p, NAN, NAN));
  if (g_real && w == 64 && (a.e || b.e)) {
    E u = toE(a, 64), v = toE(b, 64);
    switch (p) {
    case CmpInst::FCMP_OEQ: case CmpInst::FCMP_UEQ: return fromE(mkFcmp(2, u, v)); case CmpInst::FCMP_ONE: case CmpInst::FCMP_UNE: return fromE(mkNot(mkFcmp(2, u, v)));
    case CmpInst::FCMP_OGT: case CmpInst::FCMP_UGT: return fromE(mkFcmp(0, v, u)); case CmpInst::FCMP_OGE: case CmpInst::FCMP_UGE: return fromE(mkFcmp(1, v, u));
    case CmpInst::FCMP_OLT: case CmpInst::FCMP_ULT: return fromE(mkFcmp(0, u, v)); case CmpInst::FCMP_OLE: case CmpInst::FCMP_ULE: return fromE(mkFcmp(1, u, v));
    case CmpInst::FCMP_ORD: return cv(1); case CmpInst::FCMP_UNO: return cv(0);
    }
  }
  uint64_t x = concV(a), y = concV(b);
  if (w == 64) return cv(fcmpC(p, D(x), D(y)));
  float fx, fy; uint32_t xa = x, ya = y; memcpy(&fx, &xa, 4); memcpy(&fy, &ya, 4); return cv(fcmpC(p, fx, fy));
}

// ------------------------------------------------------------------ intrinsics
static Val n_llvm_minmax(std::vector<Val> &a, CallT &ct) {
  unsigned w = ct.retw; bool sg = ct.name[5] == 's', mn = ct.name.compare(6, 3, "min") == 0;
  if (!a[0].e && !a[1].e) { bool lt = sg ? sextw(a[0].v, w) < sextw(a[1].v, w) : a[0].v < a[1].v; return lt == mn ? a[0] : a[1]; }
  E x = toE(a[0], w), y = toE(a[1], w); E lt = sg ? mkSlt(x, y) : mkUlt(x, y);
  return fromE(mn ? mkIte(lt, x, y) : mkIte(lt, y, x));
}
static Val n_llvm_abs(std::vector<Val> &a, CallT &ct) { unsigned w = ct.retw; if (!a[0].e) { int64_t s = sextw(a[0].v, w); return cv((uint64_t)(s < 0 ? -s : s) & maskw(w)); } E x = a[0].e; return fromE(mkIte(mkSlt(x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); }
static Val n_llvm_sat(std::vector<Val> &a, CallT &ct) {
  unsigned w = ct.retw; E x = toE(a[0], w), y = toE(a[1], w);
  if (ct.name.compare(5, 8, "usub.sat") == 0) return fromE(mkIte(mkUlt(x, y), mkConst(0, w), mkBin(O_SUB, x, y)));
  if (ct.name.compare(5, 8, "uadd.sat") == 0) { E s = mkBin(O_ADD, x, y); return fromE(mkIte(mkUlt(s, x), mkConst(maskw(w), w), s)); }
  fatal("intrinsic " + ct.name);
}
static Val n_llvm_fmuladd(std::vector<Val> &a, CallT &) { return fbinop(Instruction::FAdd, fbinop(Instruction::FMul, a[0], a[1], 64), a[2], 64); }
static Val n_llvm_fsh(std::vector<Val> &a, CallT &ct) {
  unsigned w = ct.retw; E x = toE(a[0], w), y = toE(a[1], w), s = mkBin(O_UREM, toE(a[2], w), mkConst(w, w)); bool l = ct.name[8] == 'l';
  E z = mkEq(s, mkConst(0, w)), t = mkBin(O_SUB, mkConst(w, w), s);
  E r = l ? mkBin(O_OR, mkBin(O_SHL, x, s), mkBin(O_LSHR, y, t)) : mkBin(O_OR, mkBin(O_SHL, x, t), mkBin(O_LSHR, y, s));
  return fromE(mkIte(z, l ? x : y, r));
}
static Val n_llvm_expect(std::vector<Val> &a, CallT &) { return a[0]; }
static Val n_llvm_trap(std::vector<Val> &, CallT &) { violation("abort", "trap"); return cv(0); }
static void addIntrinsics() {
  NAT["llvm.smin"] = NAT["llvm.smax"] = NAT["llvm.umin"] = NAT["llvm.umax"] = n_llvm_minmax; NAT["llvm.abs"] = n_llvm_abs; NAT["llvm.usub.sat"] = NAT["llvm.uadd.sat"] = n_llvm_sat;
  NAT["llvm.fmuladd"] = n_llvm_fmuladd; NAT["llvm.fabs"] = n_fabs; NAT["llvm.sqrt"] = n_sqrt; NAT["llvm.fshl"] = NAT["llvm.fshr"] = n_llvm_fsh; NAT["llvm.expect"] = n_llvm_expect; NAT["llvm.trap"] = n_llvm_trap;
  NAT["llvm.floor"] = NAT["llvm.ceil"] = NAT["llvm.round"] = NAT["llvm.rint"] = n_floor;
}
static Str intrinsicBase(const Str &n) { // strip type suffixes
  Str r = n; 
  while (true) { size_t k = r.rfind('.'); if (k == Str::npos || k < 5) break; Str t = r.substr(k + 1); bool ty = !t.empty() && (t[0] == 'i' || t[0] == 'f' || t[0] == 'p') && t.size() > 1 && isdigit(t[1]); if (!ty) break; r = r.substr(0, k); }
  return r;
}

// ------------------------------------------------------------------ scheduling
static int g_children = 0; static int g_samples = 0; static bool g_isChild = false;
static void workerLoop();
static void maybeSplit() {
  // keep one state for ourselves: the one being run, or one on the worklist
  if (g_sum || work.size() < (cur ? 1u : 2u) || S->stop) return;
  static double last = 0; double t = now(); if (t - last < 0.02) return;
  int a = S->active.load();
  if (a >= g_workers || !S->active.compare_exchange_strong(a, a + 1)) return;
  last = t;
  fflush(0);
  pid_t p = fork();
  if (p < 0) { S->active--; return; }
  size_t n = work.size(), k = (n + 1) / 2;
  if (p == 0) {
    g_isChild = true; g_children = 0;
    work.resize(k); cur = nullptr;
    workerLoop();
    S->active--;
    int st; while (wait(&st) > 0) { if (!WIFEXITED(st) || WEXITSTATUS(st)) { S->errors++; if (!S->errset.exchange(1)) strcpy(S->err, "worker died"); S->stop = 1; } }
    _exit(0);
  }
  g_children++;
  for (size_t i = 0; i < k; i++) delete work[i];
  work.erase(work.begin(), work.begin() + k);
}
static void writeSample(uint64_t n) {
  Str fn = g_outdir + "/" + g_job + ".sample" + std::to_string(n) + ".json"; FILE *f = fopen(fn.c_str(), "w"); if (!f) return;
  fprintf(f, "{"); writeVars(f, cur->model); evalNewModel();
  fprintf(f, ", \"statuses\": ["); for (size_t i = 0; i < cur->statuses.size(); i++) fprintf(f, "%s%llu", i ? ", " : "", (unsigned long long)evalExpr(toE(cur->statuses[i], 32), cur->model));
  fprintf(f, "], \"files\": {"); bool first = true;
  for (auto &fe : cur->files) if (fe.exists) {
    fprintf(f, "%s\"%s\": \"", first ? "" : ", ", jsonEsc(fe.name).c_str()); first = false;
    uint64_t sz = fileSize(&fe); for (uint64_t i = 0; i < sz; i++) { Val b = fileByte(&fe, i); fprintf(f, "%02x", (unsigned)(b.e ? evalExpr(b.e, cur->model) : b.v)); }
    fprintf(f, "\"");
  }
  fprintf(f, "}}\n"); fclose(f);
}
static void endPath() {
  uint64_t n = S->paths++;
  if (g_samples) { // spread: first few and then powers of two
    bool take = n < 3 || (n & (n - 1)) == 0;
    if (take) { uint64_t k = S->samples++; if (k < (uint64_t)g_samples) writeSample(k); }
  }
  uint32_t d = cur->pc ? cur->pc->depth : 0; uint64_t m = S->maxdepth; while (d > m && !S->maxdepth.compare_exchange_weak(m, d)) {}
}

// ------------------------------------------------------------------ interpreter
static inline uint64_t cbin(unsigned op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t M = maskw(w);
  switch (op) {
  case O_ADD: return (a + b) & M; case O_SUB: return (a - b) & M; case O_MUL: return (a * b) & M;
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & M; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: { int64_t s = sextw(a, w); return (uint64_t)(b >= w ? (s < 0 ? -1 : 0) : s >> b) & M; }
  case O_UDIV: return a / b; case O_UREM: return a % b;
  case O_SDIV: { int64_t x = sextw(a, w), y = sextw(b, w); return (y == -1 ? -(uint64_t)x : (uint64_t)(x / y)) & M; }
  case O_SREM: { int64_t x = sextw(a, w), y = sextw(b, w); return (y == -1 ? 0 : (uint64_t)(x % y)) & M; }
  }
  return 0;
}
static inline bool ccmp(unsigned p, uint64_t a, uint64_t b, unsigned w) {
  switch (p) {
  case CmpInst::ICMP_EQ: return a == b; case CmpInst::ICMP_NE: return a != b;
  case CmpInst::ICMP_UGT: return a > b; case CmpInst::ICMP_UGE: return a >= b; case CmpInst::ICMP_ULT: return a < b; case CmpInst::ICMP_ULE: return a <= b;
  case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w); case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w); case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w); default: return sextw(a, w) <= sextw(b, w);
  }
}
static E ecmp(unsigned p, E a, E b) {
  switch (p) {
  case CmpInst::ICMP_EQ: return mkEq(a, b); case CmpInst::ICMP_NE: return mkNot(mkEq(a, b));
  case CmpInst::ICMP_UGT: return mkUlt(b, a); case CmpInst::ICMP_UGE: return mkUle(b, a); case CmpInst::ICMP_ULT: return mkUlt(a, b); case CmpInst::ICMP_ULE: return mkUle(a, b);
  case CmpInst::ICMP_SGT: return mkSlt(b, a); case CmpInst::ICMP_SGE: return mkSle(b, a); case CmpInst::ICMP_SLT: return mkSlt(a, b); default: return mkSle(a, b);
  }
}

// ------------------------------------------------------------------ summaries of pure functions
// A function of one symbolic integer that neither stores nor reads anything but constants is explored once
// for an arbitrary argument; its value becomes a piecewise constant function.
static bool pureFn(const Function *F) {
  static std::unordered_map<const Function *, int> memo; auto it = memo.find(F); if (it != memo.end()) return it->second;
  memo[F] = 1; // recursion is fine
  bool ok = !F->isDeclaration();
  if (ok) for (auto &B : *F) for (auto &I : B) {
    if (!ok) break;
    if (isa<StoreInst>(I) || isa<AllocaInst>(I) || isa<InvokeInst>(I) || isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I)) ok = false;
    else if (auto l = dyn_cast<LoadInst>(&I)) { SmallVector<const Value *, 8> os; getUnderlyingObjects(l->getPointerOperand(), os, nullptr, 12); for (auto o : os) { auto g = dyn_cast<GlobalVariable>(o); if (!g || !g->isConstant()) ok = false; } }
    else if (auto c = dyn_cast<CallBase>(&I)) {
      auto fn = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
      if (!fn) ok = false; else if (fn->isIntrinsic()) { if (!isa<DbgInfoIntrinsic>(c) && !fn->doesNotAccessMemory() && !fn->getName().startswith("llvm.lifetime") && !fn->getName().startswith("llvm.assume")) ok = false; }
      else if (fn->isDeclaration()) { if (fn->getName() != "__assert_fail" && fn->getName() != "abort") ok = false; } else if (!pureFn(fn)) ok = false;
    }
  }
  return memo[F] = ok;
}
static void run(State *st);
// the set of x satisfying a conjunction of comparisons with constants
static bool leafSet(const std::vector<E> &pcs, E x, uint64_t top, uint64_t &lo, uint64_t &hi, std::set<uint64_t> &holes) {
  lo = 0; hi = top; holes.clear();
  for (E e : pcs) {
    bool neg = false; while (e->op == O_XOR && e->w == 1 && isC(e->b)) { if (e->b->c) neg = !neg; e = e->a; }
    E a = e->a, b = e->b; if (e->op != O_ULT && e->op != O_ULE && e->op != O_EQ && e->op != O_SLT && e->op != O_SLE) return false;
    auto isX = [&](E q) { while (q->op == O_ZEXT) q = q->a; return q == x; };
    bool xl = isX(a) && isC(b), xr = isX(b) && isC(a); if (!xl && !xr) return false;
    uint64_t k = xl ? b->c : a->c; unsigned w = a->w;
    if ((e->op == O_SLT || e->op == O_SLE)) { if (w > x->w) { if (sextw(k, w) < 0) return false; } else return false; }
    if (e->op == O_EQ) { if (!neg) { if (k < lo || k > hi) return false; lo = hi = k; } else holes.insert(k); continue; }
    bool strict = e->op == O_ULT || e->op == O_SLT;
    // x < k, x <= k, k < x, k <= x and their negations
    if (xl != neg) { bool s = neg ? !strict : strict; /* x < k or x <= k */ if (s) { if (!k) return false; if (k - 1 < hi) hi = k - 1; } else if (k < hi) hi = k; }
    else { bool s = neg ? !strict : strict; if (s) { if (k >= top) return false; if (k + 1 > lo) lo = k + 1; } else if (k > lo) lo = k; }
    if (lo > hi) return false;
  }
  for (auto i = holes.begin(); i != holes.end();) if (*i < lo || *i > hi) i = holes.erase(i); else ++i;
  return true;
}
static bool summarize(DFunc *f, const std::vector<Val> &args, Val &out) {
  if (g_sum || !f->F->getReturnType()->isIntegerTy() || f->F->isVarArg()) return false;
  int si = -1; for (size_t i = 0; i < args.size(); i++) if (args[i].e) { if (si >= 0) return false; si = i; }
  if (si < 0 || args.size() != f->argw.size() || f->argw[si] > 32 || f->argw[si] < 2 || !f->F->getArg(si)->getType()->isIntegerTy() || !pureFn(f->F)) return false;
  struct Tab { bool ok; std::vector<uint64_t> st, vs; };
  static std::map<std::vector<uint64_t>, Tab> memo; std::vector<uint64_t> key{(uint64_t)f->fid, (uint64_t)si}; for (auto &a : args) key.push_back(a.e ? 0 : a.v);
  auto it = memo.find(key); unsigned rw = f->F->getReturnType()->getIntegerBitWidth(), w = f->argw[si];
  if (it == memo.end()) {
    SumCtx sc; State *saved = cur; std::vector<State *> savedWork; savedWork.swap(work); g_sum = &sc;
    State *s0 = new State(); s0->id = 0; s0->nextObj = saved->nextObj; s0->instrs = s0->budgetStart = 0; s0->forks = s0->uninitCtr = s0->concretizations = 0;
    s0->mem.t = g_initMem->t; for (auto c : s0->mem.t) if (c) c->rc++;
    E x = mkVar("summary" + std::to_string(w), w, 0, maskw(w)); std::vector<Val> av = args; av[si] = Val{0, x};
    cur = s0; pushFrame(f, av, -1, 3); work.push_back(s0);
    double t0 = now();
    while (!work.empty()) { State *s = work.back(); work.pop_back(); if (sc.bail || sc.leaves.size() > 20000 || now() - t0 > 60) { sc.bail = true; delete s; continue; } run(s); }
    g_sum = nullptr; work.swap(savedWork); cur = saved;
    Tab t; t.ok = !sc.bail; std::map<uint64_t, uint64_t> m; unsigned __int128 total = 0; std::vector<std::pair<std::pair<uint64_t, uint64_t>, std::pair<uint64_t, std::set<uint64_t>>>> iv;
    for (auto &l : sc.leaves) { uint64_t lo, hi; std::set<uint64_t> holes; if (!t.ok) break; if (!leafSet(l.first, x, maskw(w), lo, hi, holes)) { t.ok = false; break; } total += (unsigned __int128)(hi - lo) + 1 - holes.size(); iv.push_back({{lo, hi}, {l.second, holes}}); }
    if (t.ok && total != (unsigned __int128)maskw(w) + 1) t.ok = false;
    if (t.ok) { // cut into runs
      std::set<uint64_t> cut{0}; for (auto &q : iv) { cut.insert(q.first.first); if (q.first.second != maskw(w)) cut.insert(q.first.second + 1); for (auto h : q.second.second) { cut.insert(h); if (h != maskw(w)) cut.insert(h + 1); } }
      std::sort(iv.begin(), iv.end(), [](auto &a, auto &b) { return a.first.second - a.first.first > b.first.second - b.first.first; }); // inner ranges override the ranges around them
      std::map<uint64_t, uint64_t> val; for (auto c : cut) val[c] = 0; std::map<uint64_t, bool> got;
      for (auto &q : iv) for (auto i = val.lower_bound(q.first.first); i != val.end() && i->first <= q.first.second; ++i) if (!q.second.second.count(i->first)) { if (got[i->first]) t.ok = false; got[i->first] = true; i->second = q.second.first; }
      for (auto &q : val) { if (!got[q.first]) t.ok = false; if (t.vs.empty() || t.vs.back() != q.second) { t.st.push_back(q.first); t.vs.push_back(q.second); } }
    }
    if (g_traceQ) fprintf(stderr, "summary of %s: %s, %zu leaves, %zu runs\n", f->name.c_str(), t.ok ? "ok" : "no", sc.leaves.size(), t.st.size());
    it = memo.emplace(key, t).first;
  }
  if (!it->second.ok) return false;
  if (f->fid < (uint32_t)MAXFN) S->fn[f->fid]++;
  out = fromE(mkPW(it->second.st, it->second.vs, toE(args[si], w), rw)); return true;
}
static void doCall(DFunc *f, CallT &ct, Val *L, int dest) {
  decode(f);
  std::vector<Val> args; args.reserve(ct.args.size());
  for (size_t i = 0; i < ct.args.size(); i++) {
    int o = ct.args[i]; Val v = o >= 0 ? L[o] : g_consts[~o];
    if (i < f->argw.size() && ct.argw[i] != f->argw[i]) v = fitW(v, f->argw[i]);
    args.push_back(v);
  }
  { bool sy = false; for (auto &a : args) sy |= a.e != nullptr; Val r; if (sy && dest >= 0 && summarize(f, args, r)) { cur->fr.back().pc++; setDest(dest, r); return; } }
  cur->fr.back().pc++;
  pushFrame(f, args, dest, 0);
}
static inline bool fastLoad(State *st, uint64_t p, unsigned n, uint64_t &out) {
  uint32_t id = p >> 32; uint64_t off = (p & 0xffffffffull) - PTR_BIAS; uint32_t k = id >> 6;
  if (k >= st->mem.t.size()) return false;
  Chunk *c = st->mem.t[k]; if (!c) return false;
  Obj *o = c->o[id & 63]; if (!o || off > o->size || off + n > o->size || o->kind > K_CONST || !o->log.empty()) return false;
  uint32_t q = off % PAGE; if (q + n > PAGE) return false;
  Page *pg = o->pg[off / PAGE];
  if (!pg) { if (o->uninit) return false; out = 0; return true; }
  if (pg->sym) { for (unsigned i = 0; i < n; i++) if (pg->sym[q + i]) return false; }
  if (pg->un) { for (unsigned i = 0; i < n; i++) if (pg->un[q + i]) return false; }
  uint64_t v = 0; memcpy(&v, pg->d + q, n); out = v; return true;
}
static void run(State *st) {
  cur = st;
  try {
    uint64_t cnt = 0;
  reframe:
    while (true) {
      Frame *fr = &st->fr.back(); DFunc *f = fr->f; Val *L = st->loc.data() + fr->base; const DInst *code = f->code.data();
#define OPV(i) ((i) >= 0 ? L[i] : g_consts[~(i)])
      while (true) {
        uint32_t pc = fr->pc; const DInst &d = code[pc];
        if ((++cnt & 0xfffff) == 0) {
          st->instrs += 0x100000; S->instrs += 0x100000;
          if (S->stop) throw PathEnd{4};
          if (g_deadline && now() > g_deadline) { S->stop = 3; throw PathEnd{4}; }
          if (st->instrs - st->budgetStart > g_instrLimit) violation("hang", "no end within " + std::to_string(g_instrLimit) + " instructions");
          maybeSplit();
        }
        switch (d.op) {
        case I_BIN: {
          const Val &a = OPV(d.a), &b = OPV(d.b);
          if (d.sub >= O_UDIV && d.sub <= O_SREM) {
            if (!b.e) { if (!b.v) violation("divzero", "integer division by zero"); }
            else if (decide(mkEq(b.e, mkConst(0, d.w)))) violation("divzero", "integer division by zero");
          }
          if (!a.e && !b.e) { uint64_t r = cbin(d.sub, a.v, b.v, d.w); L[d.dest].v = r; L[d.dest].e = nullptr; }
          else { Val r = fromE(mkBin((Op)d.sub, toE(a, d.w), toE(b, d.w))); L[d.dest] = r; }
          fr->pc++; break; }
        case I_CMP: {
          const Val &a = OPV(d.a), &b = OPV(d.b);
          if (!a.e && !b.e) { bool r = ccmp(d.sub, a.v, b.v, d.w2); L[d.dest].v = r; L[d.dest].e = nullptr; }
          else { Val r = fromE(ecmp(d.sub, toE(a, d.w2), toE(b, d.w2))); L[d.dest] = r; }
          fr->pc++; break; }
        case I_LOAD: {
          const Val &p = OPV(d.a); uint64_t o;
          if (!p.e && !(d.w & 7) && fastLoad(st, p.v, d.w >> 3, o)) { L[d.dest].v = o; L[d.dest].e = nullptr; }
          else { Val r = loadMem(p, d.w); L[d.dest] = r; }
          fr->pc++; break; }
        case I_STORE: storeMem(OPV(d.a), OPV(d.b), d.w); fr->pc++; break;
        case I_GEP: {
          const Val &p = OPV(d.a); bool sym = p.e != nullptr; const auto &ix = f->geps[d.ext];
          for (auto &g : ix) if (OPV(g.op).e) sym = true;
          if (!sym) { uint64_t r = p.v + d.imm; for (auto &g : ix) r += (uint64_t)(sextw(OPV(g.op).v, g.w) * g.stride); L[d.dest].v = r; L[d.dest].e = nullptr; }
          else {
            E off = mkConst((uint64_t)d.imm, 64);
            if (!p.e) off = mkConst(p.v + d.imm, 64);
            for (auto &g : ix) { const Val &v = OPV(g.op); E t = v.e ? mkBin(O_MUL, mkSext(v.e, 64), mkConst((uint64_t)g.stride, 64)) : mkConst((uint64_t)(sextw(v.v, g.w) * g.stride), 64); off = mkBin(O_ADD, off, t); }
            if (p.e) off = mkBin(O_ADD, p.e, off);
            L[d.dest] = fromE(off);
          }
          fr->pc++; break; }
        case I_BR: case I_CBR: {
          int e = d.b;
          if (d.op == I_CBR) { const Val &c = OPV(d.a); bool t = c.e ? decide(c.e) : (c.v & 1); if (!t) e = d.c; }
          const Edge &ed = f->edges[e];
          size_t n = ed.mv.size();
          if (n == 1) { Val v = OPV(ed.mv[0].second); L[ed.mv[0].first] = v; }
          else if (n) { Val tmp[64]; std::vector<Val> big; Val *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = OPV(ed.mv[i].second); for (size_t i = 0; i < n; i++) L[ed.mv[i].first] = t[i]; }
          fr->pc = ed.target; break; }
        case I_SWITCH: {
          const Val &c = OPV(d.a); const SwitchT &T = f->sws[d.ext]; int e = T.dflt;
          if (!c.e) { for (auto &g : T.groups) for (auto v : g.second) if (v == c.v) { e = g.first; break; } }
          else for (auto &g : T.groups) { E any = mkConst(0, 1); for (auto v : g.second) any = mkBin(O_OR, any, mkEq(c.e, mkConst(v, T.w))); if (decide(any)) { e = g.first; break; } }
          const Edge &ed = f->edges[e]; std::vector<Val> t; for (auto &m : ed.mv) t.push_back(OPV(m.second)); for (size_t i = 0; i < t.size(); i++) L[ed.mv[i].first] = t[i];
          fr->pc = ed.target; break; }
        case I_CALL: doCall(f->calls[d.ext].fn, f->calls[d.ext], L, d.dest); goto reframe;
        case I_ICALL: {
          uint64_t t = concV(OPV(d.a)); auto it = g_funcById.find(t >> 32);
          if (it != g_funcById.end()) { doCall(it->second, f->calls[d.ext], L, d.dest); goto reframe; }
          auto ie = g_extFnById.find(t >> 32); if (ie == g_extFnById.end()) memErr("call through an invalid function pointer");
          CallT &ct = f->calls[d.ext]; ct.name = ie->second; ct.native = nativeId(ct.name);
        } // fall through
        case I_NCALL: {
          CallT &ct = f->calls[d.ext];
          if (ct.native < 0) fatal("call to unmodelled function " + ct.name);
          std::vector<Val> args; args.reserve(ct.args.size()); for (int o : ct.args) args.push_back(OPV(o));
          pendingDest = d.dest; frameChanged = false; curInst = &d; curFn = f;
          Val r = natById[ct.native](args, ct);
          if (frameChanged) goto reframe;
          L = st->loc.data() + fr->base;
          if (d.dest >= 0) L[d.dest] = fitW(r, d.w);
          fr->pc++; break; }
        case I_RET: { Val v = d.flag ? OPV(d.a) : cv(0); doRet(v, d.w); goto reframe; }
        case I_SELECT: {
          const Val &c = OPV(d.a);
          if (!c.e) { Val r = (c.v & 1) ? OPV(d.b) : OPV(d.c); L[d.dest] = r; }
          else {
            Val t = OPV(d.b), g = OPV(d.c);
            auto real = [](const Val &x) { return x.e && x.e->op >= O_FRAT; };
            if (d.flag && g_real && d.w == 64 && (real(t) || real(g))) L[d.dest] = fromE(mkFop(5, mkIte(c.e, toE(t, d.w), toE(g, d.w)), nullptr));
            else if (d.flag) { bool k = (!t.e && !g.e && t.v == g.v) ? true : decide(c.e); L[d.dest] = k ? t : g; }
            else L[d.dest] = fromE(mkIte(c.e, toE(t, d.w), toE(g, d.w)));
          }
          fr->pc++; break; }
        case I_ZEXT: { const Val &a = OPV(d.a); Val r = a.e ? fromE(mkZext(a.e, d.w)) : a; L[d.dest] = r; fr->pc++; break; }
        case I_SEXT: { const Val &a = OPV(d.a); Val r = a.e ? fromE(mkSext(a.e, d.w)) : cv((uint64_t)sextw(a.v, d.w2) & maskw(d.w)); L[d.dest] = r; fr->pc++; break; }
        case I_TRUNC: { const Val &a = OPV(d.a); Val r = a.e ? fromE(mkExtract(a.e, 0, d.w)) : cv(a.v & maskw(d.w)); L[d.dest] = r; fr->pc++; break; }
        case I_MOVE: { Val r = OPV(d.a); L[d.dest] = r; fr->pc++; break; }
        case I_FBIN: { Val a = OPV(d.a), b = OPV(d.b); Val r = fbinop(d.sub, a, b, d.w); L[d.dest] = r; fr->pc++; break; }
        case I_FCMP: { Val a = OPV(d.a), b = OPV(d.b); Val r = fcmpop(d.sub, a, b, d.w2); L[d.dest] = r; fr->pc++; break; }
        case I_SITOFP: case I_UITOFP: {
          Val a = OPV(d.a);
          if (a.e && d.w == 64) { E x = d.op == I_SITOFP ? mkSext(a.e, 64) : mkZext(a.e, 64); if (smallAbs(x, 1ull << 52)) { L[d.dest] = mkF(x, mkConst(1, 64)); fr->pc++; break; } }
          uint64_t v = concV(a);
          if (d.w == 64) L[d.dest] = cv(UD(d.op == I_SITOFP ? (double)sextw(v, d.w2) : (double)v));
          else { float q = d.op == I_SITOFP ? (float)sextw(v, d.w2) : (float)v; uint32_t u; memcpy(&u, &q, 4); L[d.dest] = cv(u); }
          fr->pc++; break; }
        case I_FPTOSI: {
          Val a = OPV(d.a); E x;
          if (a.e && d.w2 == 64 && fIsInt(a, x)) { L[d.dest] = fromE(d.w < 64 ? mkExtract(x, 0, d.w) : x); fr->pc++; break; }
          uint64_t v = concV(a); double q; if (d.w2 == 64) q = D(v); else { float z; uint32_t u = v; memcpy(&z, &u, 4); q = z; }
          L[d.dest] = cv((d.flag ? (uint64_t)q : (uint64_t)(int64_t)q) & maskw(d.w)); fr->pc++; break; }
        case I_FPTRUNC: { float q = (float)D(concV(OPV(d.a))); uint32_t u; memcpy(&u, &q, 4); L[d.dest] = cv(u); fr->pc++; break; }
        case I_FPEXT: { float q; uint32_t u = concV(OPV(d.a)); memcpy(&q, &u, 4); L[d.dest] = cv(UD(q)); fr->pc++; break; }
        case I_FNEG: { Val a = OPV(d.a); E x; if (a.e && fIsInt(a, x)) L[d.dest] = mkF(mkBin(O_SUB, mkConst(0, 64), x), mkConst(1, 64)); else if (a.e && g_real && d.w == 64) L[d.dest] = fromE(mkFop(1, mkConst(0, 64), a.e)); else L[d.dest] = cv(concV(a) ^ (1ull << (d.w - 1))); fr->pc++; break; }
        case I_ALLOCA: { uint64_t n = concV(OPV(d.a)); uint32_t id = newObj(d.imm * n, K_STACK, true); st->allocas.push_back(id); L[d.dest] = cv(mkAddr(id, 0)); fr->pc++; break; }
        case I_UNREACH: violation("unreachable", "execution reached an unreachable point (undefined behaviour)"); break;
        case I_UNSUP: { Str s; raw_string_ostream os(s); d.src->print(os); fatal("unsupported instruction " + os.str()); }
        }
      }
    }
  } catch (PathEnd &p) {
    if (p.kind == 3) { /* error recorded */ }
  }
  S->instrs += 1;
  delete st; cur = nullptr;
}
static void workerLoop() {
  while (!work.empty() && !S->stop) {
    maybeSplit();
    if (work.empty()) break;
    State *st = work.back(); work.pop_back();
    run(st);
    if (g_deadline && now() > g_deadline && !work.empty()) S->stop = 3;
  }
}

// ------------------------------------------------------------------ loading
static int loadModule(const Str &path, const Str &name, bool tool) {
  SMDiagnostic err; auto M = parseIRFile(path, err, g_ctx);
  if (!M) { err.print("symir", errs()); exit(2); }
  ModInfo *mi = new ModInfo(); mi->name = name; mi->M = std::move(M); int mod = g_mods.size(); g_mods.push_back(mi);
  DL = &mi->M->getDataLayout();
  for (auto &F : *mi->M) if (!F.isDeclaration()) {
    DFunc *df = new DFunc(); df->F = &F; df->name = F.getName().str(); df->module = mod; df->fid = g_funcs.size(); df->tool = tool; g_funcs.push_back(df);
    mi->fns[df->name] = df; uint32_t id = g_nextGlobal++; g_fnObj[&F] = id; g_funcById[id] = df; g_initMem->set(id, Obj::make(1, K_FUNC, false));
  }
  for (auto &G : mi->M->globals()) mi->gids[&G] = g_nextGlobal++;
  for (auto &G : mi->M->globals()) {
    if (G.getName().startswith("llvm.")) continue;
    uint64_t sz = DL->getTypeAllocSize(G.getValueType()); uint32_t id = mi->gids[&G];
    Str n = G.getName().str();
    if (!G.hasInitializer()) {
      Obj *o;
      if (n == "stdin" || n == "stdout" || n == "stderr") { o = Obj::make(8, K_GLOBAL, false); uint64_t a = mkAddr(n == "stdin" ? ID_STDIN : n == "stdout" ? ID_STDOUT : ID_STDERR, 0); memcpy(o->pageW(0)->d, &a, 8); }
      else if (n == "utf8proc_utf8class") { o = Obj::make(256, K_CONST, false); memcpy(o->pageW(0)->d, utf8proc_utf8class, 256); }
      else { o = Obj::make(sz ? sz : 8, K_GLOBAL, false); }
      g_initMem->set(id, o); continue;
    }
    Obj *o = Obj::make(sz, G.isConstant() ? K_CONST : K_GLOBAL, false);
    initData(o, G.getInitializer(), 0, mod);
    if (G.isConstant() || !tool) g_initMem->set(id, o); else { o->rc++; g_initMem->set(id, o); mi->inits.push_back({id, o}); }
  }
  if (tool) g_toolMod[name] = mod;
  return mod;
}
static void collectLabels(Module &M) {
  for (auto &F : M) for (auto &B : F) for (auto &I : B) if (auto cb = dyn_cast<CallBase>(&I)) {
    auto fn = dyn_cast<Function>(cb->getCalledOperand()->stripPointerCasts()); if (!fn || fn->getName() != "sym_reach") continue;
    std::function<void(const Value *)> rec = [&](const Value *v) {
      if (auto se = dyn_cast<SelectInst>(v)) { rec(se->getTrueValue()); rec(se->getFalseValue()); return; }
      if (auto ph = dyn_cast<PHINode>(v)) { for (auto &u : ph->incoming_values()) rec(u.get()); return; }
      if (auto g = dyn_cast<GlobalVariable>(v->stripPointerCasts())) if (g->hasInitializer()) if (auto c = dyn_cast<ConstantDataArray>(g->getInitializer())) if (c->isCString()) { Str s = c->getAsCString().str(); for (auto &x : g_labels) if (x == s) return; g_labels.push_back(s); }
    };
    rec(cb->getArgOperand(0));
  }
}
static void initTables() {
  // distinct property records of the real utf8proc
  std::map<Str, uint64_t> idx; std::vector<Str> recs; size_t sz = sizeof(utf8proc_property_t);
  ID_PROPS = g_nextGlobal++;
  auto add = [&](std::vector<uint64_t> &st, std::vector<uint64_t> &vs, uint64_t s, uint64_t v) { if (vs.empty() || vs.back() != v) { st.push_back(s); vs.push_back(v); } };
  for (uint64_t c = 0; c <= 0x110000; c++) {
    const utf8proc_property_t *p = utf8proc_get_property((utf8proc_int32_t)c); Str k((const char *)p, sz);
    auto it = idx.find(k); uint64_t i; if (it == idx.end()) { i = recs.size(); idx[k] = i; recs.push_back(k); } else i = it->second;
    add(U_st, U_prop, c, mkAddr(ID_PROPS, i * sz));
    add(C_st, C_cat, c, (uint32_t)utf8proc_category((utf8proc_int32_t)c));
    add(L_st, L_delta, c, (uint32_t)(c < 0x110000 ? utf8proc_tolower((utf8proc_int32_t)c) - (utf8proc_int32_t)c : 0));
    add(T_st, T_delta, c, (uint32_t)(c < 0x110000 ? utf8proc_toupper((utf8proc_int32_t)c) - (utf8proc_int32_t)c : 0));
  }
  Obj *o = Obj::make(recs.size() * sz, K_CONST, false);
  for (size_t i = 0; i < recs.size(); i++) for (size_t k = 0; k < sz; k++) o->pageW((i * sz + k) / PAGE)->d[(i * sz + k) % PAGE] = recs[i][k];
  g_initMem->set(ID_PROPS, o);
  auto tab = [&](uint32_t &ptr, uint32_t &t, const void *src, size_t es) {
    t = g_nextGlobal++; ptr = g_nextGlobal++; Obj *x = Obj::make(384 * es, K_CONST, false); memcpy(x->pageW(0)->d, (const char *)src - 128 * es, 384 * es); g_initMem->set(t, x);
    Obj *y = Obj::make(8, K_CONST, false); uint64_t a = mkAddr(t, 128 * es); memcpy(y->pageW(0)->d, &a, 8); g_initMem->set(ptr, y);
  };
  tab(ID_CTYPE, ID_CTYPE_TAB, *__ctype_b_loc(), 2); tab(ID_TOLOWER, ID_TOLOWER_TAB, *__ctype_tolower_loc(), 4); tab(ID_TOUPPER, ID_TOUPPER_TAB, *__ctype_toupper_loc(), 4);
  ID_ERRNO = g_nextGlobal++; g_initMem->set(ID_ERRNO, Obj::make(4, K_GLOBAL, false));
}

int main(int argc, char **argv) {
  Str harness, stats; std::vector<std::pair<Str, Str>> tools; double tl = 0; std::set<Str> only;
  for (int i = 1; i < argc; i++) {
    Str a = argv[i]; auto nx = [&]() -> Str { return ++i < argc ? argv[i] : ""; };
    if (a == "--harness") harness = nx();
    else if (a == "--tool") { Str t = nx(); size_t k = t.find('='); tools.push_back({t.substr(0, k), t.substr(k + 1)}); }
    else if (a == "--param") { Str t = nx(); size_t k = t.find('='); g_params[t.substr(0, k)] = atol(t.substr(k + 1).c_str()); if (t.substr(0, k) == "real") g_real = true; }
    else if (a == "--outdir") g_outdir = nx(); else if (a == "--job") g_job = nx(); else if (a == "--workers") g_workers = atoi(nx().c_str());
    else if (a == "--instr-limit") g_instrLimit = atoll(nx().c_str()); else if (a == "--time") tl = atof(nx().c_str()); else if (a == "--max-viol") g_maxViol = atoi(nx().c_str());
    else if (a == "--samples") g_samples = atoi(nx().c_str()); else if (a == "-v") g_verbose = true; else if (a == "--trace-queries") g_traceQ = true;
    else if (a == "--rlimit") g_rlimit = atoll(nx().c_str());
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
  }
  S = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset((void *)S, 0, sizeof(Shared));
  double t0 = now();
  g_initMem = new Mem();
  ID_STDIN = g_nextGlobal++; ID_STDOUT = g_nextGlobal++; ID_STDERR = g_nextGlobal++;
  for (int i = 0; i < 3; i++) g_initMem->set(ID_STDIN + i, Obj::make(8, K_EXT, false));
  initNatives(); addIntrinsics(); initTables();
  int hm = -1;
  try {
    hm = loadModule(harness, "harness", false);
    for (auto &t : tools) loadModule(t.second, t.first, true);
  } catch (std::exception &e) { fprintf(stderr, "symir: %s\n", e.what()); return 2; }
  collectLabels(*g_mods[hm]->M);
  if (g_labels.size() > MAXLAB || g_funcs.size() > MAXFN) { fprintf(stderr, "symir: too many labels or functions\n"); return 2; }
  Z3_config cfg = Z3_mk_config(); g_z3 = new ZCtx{Z3_mk_context(cfg)}; Z3_set_error_handler(*g_z3, [](Z3_context c, Z3_error_code e) { fprintf(stderr, "symir: z3 error: %s\n", Z3_get_error_msg(c, e)); });
  solver = new ZSolver{Z3_mk_simple_solver(*g_z3)}; Z3_solver_inc_ref(*g_z3, *solver);
  { Z3_params p = Z3_mk_params(*g_z3); Z3_params_inc_ref(*g_z3, p); Z3_params_set_uint(*g_z3, p, Z3_mk_string_symbol(*g_z3, "rlimit"), (unsigned)g_rlimit); Z3_params_set_uint(*g_z3, p, Z3_mk_string_symbol(*g_z3, "timeout"), 60000); Z3_solver_set_params(*g_z3, *solver, p); }
  if (tl > 0) g_deadline = t0 + tl;
  State *st = new State(); st->id = 0; st->nextObj = (g_nextGlobal + 63) / 64 * 64; st->instrs = st->budgetStart = 0; st->forks = st->uninitCtr = st->concretizations = 0;
  st->mem.t = g_initMem->t; for (auto c : st->mem.t) if (c) c->rc++;
  cur = st; openStd();
  try { auto it = g_mods[hm]->fns.find("harness_main"); if (it == g_mods[hm]->fns.end()) { fprintf(stderr, "no harness_main\n"); return 2; } pushFrame(it->second, {}, -1, 0); } catch (PathEnd &) { return 2; }
  work.push_back(st); S->active = 1;
  workerLoop();
  S->active--;
  int ws; while (wait(&ws) > 0) { if (!WIFEXITED(ws) || WEXITSTATUS(ws)) { S->errors++; if (!S->errset.exchange(1)) strcpy(S->err, "worker died"); } }
  double wall = now() - t0;
  FILE *f = fopen((g_outdir + "/" + g_job + ".json").c_str(), "w");
  fprintf(f, "{\"job\": \"%s\", \"complete\": %s, \"stop\": %d, \"paths\": %llu, \"infeasible\": %llu, \"instrs\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"solver_s\": %.3f, \"asserts\": %llu, \"assert_queries\": %llu, \"forks\": %llu, \"violations\": %llu, \"errors\": %llu, \"concretizations\": %llu, \"max_pc\": %llu, \"wall_s\": %.3f, \"error\": \"%s\", ",
    g_job.c_str(), S->stop == 0 && S->errors == 0 ? "true" : "false", (int)S->stop, (unsigned long long)S->paths, (unsigned long long)S->infeasible, (unsigned long long)S->instrs, (unsigned long long)S->queries, (unsigned long long)S->qsat, (unsigned long long)S->qunsat, S->solver_us / 1e6, (unsigned long long)S->asserts, (unsigned long long)S->assertq, (unsigned long long)S->forks, (unsigned long long)S->violations, (unsigned long long)S->errors, (unsigned long long)S->concretizations, (unsigned long long)S->maxdepth, wall, jsonEsc(S->err).c_str());
  fprintf(f, "\"labels\": {"); for (size_t i = 0; i < g_labels.size(); i++) fprintf(f, "%s\"%s\": %llu", i ? ", " : "", jsonEsc(g_labels[i]).c_str(), (unsigned long long)S->lab[i]);
  fprintf(f, "}, \"functions\": ["); bool first = true;
  for (auto df : g_funcs) if (df->fid < (uint32_t)MAXFN && S->fn[df->fid]) { Str file; if (auto sp = df->F->getSubprogram()) file = sp->getFilename().str(); fprintf(f, "%s[\"%s\", \"%s\"]", first ? "" : ", ", jsonEsc(df->name).c_str(), jsonEsc(file).c_str()); first = false; }
  fprintf(f, "]}\n"); fclose(f);
  _exit(0);
}
