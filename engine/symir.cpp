// symir: forking symbolic executor for LLVM IR (C programs), deciding branch
// feasibility and assertions with Z3.
#include "state.h"
#include <llvm/Analysis/ValueTracking.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <atomic>
#include <cmath>
#include <csignal>
#include <ctime>
#include <fcntl.h>
#include <functional>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <utf8proc.h>

using namespace llvm;
typedef std::string Str;

// ------------------------------------------------------------------ decoded program
enum IOp : uint8_t {
  I_BIN, I_CMP, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR, I_SWITCH, I_CALL, I_ICALL, I_NCALL, I_RET, I_SELECT,
  I_ZEXT, I_SEXT, I_TRUNC, I_MOVE, I_FBIN, I_FCMP, I_SITOFP, I_UITOFP, I_FPTOSI, I_FPTRUNC, I_FPEXT, I_FNEG,
  I_ALLOCA, I_UNREACH, I_UNSUP
};
struct Edge { uint32_t target; std::vector<std::pair<int, int>> mv; };
struct GepIdx { int op; uint8_t w; int64_t stride; };
struct DInst {
  IOp op; uint8_t sub; uint8_t w, w2; bool flag = false;
  int dest = -1, a = 0, b = 0, c = 0;
  int64_t imm = 0;
  int ext = -1; // index into per-function extra tables
  const Instruction *src = nullptr;
};
struct SwitchT { int dflt; std::vector<std::pair<int, std::vector<uint64_t>>> groups; unsigned w; };
struct CallT { std::vector<int> args; std::vector<uint8_t> argw; std::vector<bool> argfp; DFunc *fn = nullptr; int native = -1; Str name; uint8_t retw = 0; };
struct DFunc {
  const Function *F; Str name; int module; uint32_t nslots = 0; std::vector<uint8_t> argw; std::vector<DInst> code;
  std::vector<Edge> edges; std::vector<std::vector<GepIdx>> geps; std::vector<SwitchT> sws; std::vector<CallT> calls;
  bool decoded = false; uint32_t fid; bool tool = false;
};
struct ModInfo { Str name; std::unique_ptr<Module> M; std::map<Str, DFunc *> fns; std::vector<std::pair<uint32_t, Obj *>> inits; std::map<const GlobalVariable *, uint32_t> gids; };

static LLVMContext g_ctx;
static std::vector<ModInfo *> g_mods;
static std::vector<DFunc *> g_funcs;
static std::unordered_map<uint32_t, DFunc *> g_funcById;       // object id -> function
static std::unordered_map<uint32_t, Str> g_extFnById;
static std::map<Str, uint32_t> g_extFnId;
static std::map<const Function *, uint32_t> g_fnObj;
static std::map<Str, int> g_toolMod;
static std::vector<Val> g_consts;
static uint32_t g_nextGlobal = 1;
static Mem *g_initMem;
static uint32_t ID_STDIN, ID_STDOUT, ID_STDERR, ID_PROPS, ID_CTYPE, ID_CTYPE_TAB, ID_UTF8CLASS, ID_TOLOWER, ID_TOLOWER_TAB, ID_TOUPPER, ID_TOUPPER_TAB, ID_ERRNO;
static const DataLayout *DL;

// ------------------------------------------------------------------ shared statistics
static const int MAXFN = 4096, MAXLAB = 256;
struct Shared {
  std::atomic<int> active; std::atomic<int> stop;
  std::atomic<uint64_t> paths, infeasible, instrs, queries, qsat, qunsat, solver_us, asserts, assertq, forks, violations, errors, concretizations, maxdepth, summarised;
  std::atomic<uint32_t> fn[MAXFN]; std::atomic<uint64_t> lab[MAXLAB];
  std::atomic<uint64_t> samples, outN; char err[512];
  std::atomic<int> errset;
};
static Shared *S;
static std::vector<Str> g_labels; // populated from harness constants at load time
static Str g_outdir = ".", g_job = "job";
static int g_workers = 8; static uint64_t g_instrLimit = 2000000000ull; static uint64_t g_rlimit = 0; static double g_deadline = 0; static int g_maxViol = 5;
static uint64_t g_sampleEvery = 0; static bool g_verbose = false; static int g_maxConc = 300;
static Str g_dumpSmt;

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::map<Str, long> g_params;
struct SumCtx; static SumCtx *g_sum = nullptr; static void sumBail();
struct PathEnd { int kind; }; // 0 done 1 infeasible 2 violation
[[noreturn]] static void fatal(const Str &m) {
  if (g_sum) { sumBail(); throw PathEnd{9}; }
  if (S && !S->errset.exchange(1)) { strncpy(S->err, m.c_str(), sizeof(S->err) - 1); }
  if (S && ++S->errors > 200) S->stop = 1;
  fprintf(stderr, "symir: ERROR: %s\n", m.c_str());
  throw PathEnd{3};
}

static State *cur; static std::vector<State *> work;
static const DInst *curInst; static DFunc *curFn;

// ------------------------------------------------------------------ solver
struct ZSolver { Z3_solver s; operator Z3_solver() const { return s; } void push() { Z3_solver_push(*g_z3, s); } void pop(unsigned n = 1) { Z3_solver_pop(*g_z3, s, n); } };
static ZSolver *solver;
static std::vector<PC *> sstack;              // asserted pc nodes
static size_t varsAsserted = 0;
static void z3err() { Z3_error_code c = Z3_get_error_code(*g_z3); if (c != Z3_OK) { fprintf(stderr, "z3 error %s\n", Z3_get_error_msg(*g_z3, c)); } }

static void assertExpr(E e) {
  std::vector<Z3_ast> sides; std::vector<E> rnds; collectSides(e, sides, rnds);
  for (auto s : sides) Z3_solver_assert(*g_z3, *solver, s);
  Z3_solver_assert(*g_z3, *solver, toZ3(e));
}
static void syncSolver(State *st) {
  std::vector<PC *> want; for (PC *p = st->pc; p; p = p->prev) want.push_back(p);
  std::reverse(want.begin(), want.end());
  if (varsAsserted < g_vars.size()) { // assert bounds of new variables at the base level
    if (!sstack.empty()) { solver->pop(sstack.size()); for (auto p : sstack) State::unrefPC(p); sstack.clear(); }
    for (; varsAsserted < g_vars.size(); varsAsserted++) {
      VarInfo v = g_vars[varsAsserted];
      if (v.w == 1) continue;
      if (v.lo == 0 && v.hi == maskw(v.w)) continue;
      Z3_symbol s = Z3_mk_string_symbol(*g_z3, ("v" + std::to_string(varsAsserted)).c_str());
      Z3_ast x = Z3_mk_const(*g_z3, s, Z3_mk_bv_sort(*g_z3, v.w));
      Z3_sort bs = Z3_mk_bv_sort(*g_z3, v.w);
      Z3_solver_assert(*g_z3, *solver, Z3_mk_bvule(*g_z3, x, Z3_mk_unsigned_int64(*g_z3, v.hi, bs)));
      Z3_solver_assert(*g_z3, *solver, Z3_mk_bvuge(*g_z3, x, Z3_mk_unsigned_int64(*g_z3, v.lo, bs)));
    }
  }
  size_t k = 0; while (k < want.size() && k < sstack.size() && want[k] == sstack[k]) k++;
  if (sstack.size() > k) { solver->pop(sstack.size() - k); while (sstack.size() > k) { State::unrefPC(sstack.back()); sstack.pop_back(); } }
  for (; k < want.size(); k++) { solver->push(); assertExpr(want[k]->e); want[k]->rc++; sstack.push_back(want[k]); }
}
static bool spuriousFix(State *st, E extra, const Model &m) {
  // RND ties: the encoding leaves the direction of exact ties open; refine with the real value
  std::vector<E> rn; std::vector<Z3_ast> sd;
  for (PC *p = st->pc; p; p = p->prev) collectSides(p->e, sd, rn);
  if (extra) collectSides(extra, sd, rn);
  evalNewModel();
  bool any = false;
  for (E r : rn) {
    uint64_t a = evalExpr(r->a, m), b = evalExpr(r->b, m), v = evalExpr(r, m);
    Z3_ast q[2] = {toZ3(mkEq(r->a, mkConst(a, 64))), toZ3(mkEq(r->b, mkConst(b, 64)))};
    Z3_ast pr = Z3_mk_and(*g_z3, 2, q);
    Z3_solver_assert(*g_z3, *solver, Z3_mk_implies(*g_z3, pr, Z3_mk_eq(*g_z3, toZ3(r), Z3_mk_unsigned_int64(*g_z3, v, Z3_mk_bv_sort(*g_z3, 64)))));
    any = true;
  }
  return any;
}
static Str where(); static bool g_traceQ = getenv("SYMIR_TRACEQ") != 0;
// is pc(st) && extra satisfiable? model returned in out
static bool checkSat0(State *st, E extra, Model *out, const std::vector<uint8_t> *only) {
  if (g_traceQ) { fprintf(stderr, "Q %s | %s\n", where().substr(0, 60).c_str(), extra ? exprStr(extra, 11).c_str() : ""); }
  if (extra && liaWorth(extra)) {
    double l0 = now(); std::vector<E> pcs; for (PC *p = st->pc; p; p = p->prev) pcs.push_back(p->e);
    bool u = liaUnsat(pcs, extra); S->solver_us += (uint64_t)((now() - l0) * 1e6);
    if (u) { S->queries++; S->qunsat++; if (g_traceQ) fprintf(stderr, "  -> 0 in %.3f lia\n", now() - l0); return false; }
  }
  syncSolver(st);
  solver->push();
  if (extra) assertExpr(extra);
  double t0 = now();
  bool res;
  for (int iter = 0;; iter++) {
    S->queries++;
    Z3_lbool r = Z3_solver_check(*g_z3, *solver);
    if (r == Z3_L_UNDEF) { const char *why = Z3_solver_get_reason_unknown(*g_z3, *solver); Str w = why ? why : "?"; solver->pop(); S->solver_us += (uint64_t)((now() - t0) * 1e6); fatal("solver returned unknown: " + w); }
    if (r == Z3_L_FALSE) { S->qunsat++; res = false; break; }
    S->qsat++;
    Z3_model zm = Z3_solver_get_model(*g_z3, *solver); Z3_model_inc_ref(*g_z3, zm);
    Model m = st->model;
    unsigned n = Z3_model_get_num_consts(*g_z3, zm);
    for (unsigned i = 0; i < n; i++) {
      Z3_func_decl d = Z3_model_get_const_decl(*g_z3, zm, i);
      Z3_symbol sy = Z3_get_decl_name(*g_z3, d);
      Str nm = Z3_get_symbol_string(*g_z3, sy);
      if (nm[0] != 'v') continue;
      Z3_ast val = Z3_model_get_const_interp(*g_z3, zm, d);
      uint64_t x = 0;
      if (Z3_get_bool_value(*g_z3, val) == Z3_L_TRUE) x = 1;
      else if (Z3_get_bool_value(*g_z3, val) == Z3_L_FALSE) x = 0;
      else Z3_get_numeral_uint64(*g_z3, val, &x);
      unsigned vi = atoi(nm.c_str() + 1); if (only && !(vi < only->size() && (*only)[vi])) continue;
      m.set(vi, x);
    }
    Z3_model_dec_ref(*g_z3, zm);
    if (only && !out) { res = true; break; } // only whether the bit-vector view excludes it
    evalNewModel();
    bool ok = !extra || evalExpr(extra, m);
    for (PC *p = st->pc; ok && p; p = p->prev) if (!evalExpr(p->e, m)) ok = false;
    if (ok) { if (out) *out = m; res = true; break; }
    if (iter > 200 || !spuriousFix(st, extra, m)) {
      if (g_verbose) for (PC *p = st->pc; p; p = p->prev) if (!evalExpr(p->e, m)) fprintf(stderr, "bad: %s\n", exprStr(p->e, 12).c_str());
      solver->pop(); fatal("solver model does not satisfy the native evaluation" + (extra ? ": " + exprStr(extra, 10) : Str())); }
  }
  solver->pop();
  if (g_traceQ) fprintf(stderr, "  -> %d in %.3f\n", res, now() - t0);
  S->solver_us += (uint64_t)((now() - t0) * 1e6);
  return res;
}

// queries with floating point: the bit-vector view leaves it open, the real view bounds it, the native evaluation confirms a witness
static const std::vector<uint32_t> &suppF(E e) {
  static std::unordered_map<uint32_t, std::vector<uint32_t>> memo; auto it = memo.find(e->id); if (it != memo.end()) return it->second;
  std::vector<uint32_t> r; if (e->op == O_VAR) r.push_back((uint32_t)e->c);
  for (E x : {e->a, e->b, e->d}) if (x) { auto &q = suppF(x); r.insert(r.end(), q.begin(), q.end()); }
  std::sort(r.begin(), r.end()); r.erase(std::unique(r.begin(), r.end()), r.end()); return memo[e->id] = r;
}
static bool g_real = false;
// how far a formula is from the truth value wanted, 0 when it has it
static double farFrom(E e, bool want, const Model &m) {
  if (evalExpr(e, m) == (uint64_t)want) return 0;
  if (e->op == O_XOR && e->w == 1 && isC(e->b)) return farFrom(e->a, e->b->c ? !want : want, m);
  if ((e->op == O_AND || e->op == O_OR) && e->w == 1) { double a = farFrom(e->a, want, m), b = farFrom(e->b, want, m); return (e->op == O_AND) == want ? a + b : std::min(a, b); }
  if (e->op == O_ITE && e->w == 1) return farFrom(evalExpr(e->a, m) ? e->b : e->d, want, m);
  double d = -1;
  if (e->op == O_FCMP) { uint64_t u = evalExpr(e->a, m), v = evalExpr(e->b, m); double x, y; memcpy(&x, &u, 8); memcpy(&y, &v, 8); d = fabs(x - y); }
  else if ((e->op == O_EQ || e->op == O_ULT || e->op == O_ULE || e->op == O_SLT || e->op == O_SLE) && e->a->w > 1) d = fabs((double)(int64_t)evalExpr(e->a, m) - (double)(int64_t)evalExpr(e->b, m));
  if (!(d >= 0)) return 1;
  return 0.02 + 0.01 * log2(1 + 1000 * d);
}
static bool checkSat(State *st, E extra, Model *out) {
  bool anyF = extra && extra->hasF; if (g_real) for (PC *p = st->pc; p && !anyF; p = p->prev) anyF = p->e->hasF;
  if (!anyF) return checkSat0(st, extra, out, nullptr);
  std::vector<uint8_t> in(g_vars.size(), 0); std::vector<E> sl; std::vector<PC *> rest; bool f = false, more = true;
  if (extra) { for (auto v : suppF(extra)) in[v] = 1; sl.push_back(extra); f = extra->hasF; }
  for (PC *p = st->pc; p; p = p->prev) rest.push_back(p);
  while (more) { more = false; for (auto &p : rest) if (p) { bool hit = !extra; for (auto v : suppF(p->e)) if (in[v]) hit = true; if (!hit) continue; for (auto v : suppF(p->e)) in[v] = 1; sl.push_back(p->e); f |= p->e->hasF; p = nullptr; more = true; } }
  if (!f) return checkSat0(st, extra, out, &in);
  double t0 = now(); std::vector<uint32_t> vs; for (uint32_t i = 0; i < in.size(); i++) if (in[i]) vs.push_back(i);
  static uint64_t rng = 88172645463325252ull; auto R = [&]() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; };
  auto witness = [&](int tries) {
    for (int i = 0; i < tries; i++) {
      Model m = st->model;
      if (i) { int k = i % 5 == 4 ? (int)vs.size() : 1 + R() % 3; for (int j = 0; j < k; j++) { uint32_t v = vs[k == (int)vs.size() ? j : R() % vs.size()]; VarInfo &w = g_vars[v]; uint64_t n = w.hi - w.lo, c = m.get(v), x; switch (R() % 6) { case 0: x = w.lo; break; case 1: x = w.hi; break; case 2: x = c + 1; break; case 3: x = c - 1; break; case 4: x = w.lo + (n == ~0ull ? R() : R() % (n + 1)); break; default: x = w.lo + (n ? R() % (std::min<uint64_t>(n, 12) + 1) : 0); } if (x < w.lo || x > w.hi) x = c; m.set(v, x); } }
      evalNewModel(); bool ok = true; for (E e : sl) if (!evalExpr(e, m)) { ok = false; break; }
      if (ok) { if (out) *out = m; return true; }
    }
    return false; };
  auto total = [&](const Model &m) { evalNewModel(); double t = 0; for (E e : sl) t += farFrom(e, true, m); return t; };
  auto climb = [&](int evals, const Model *from) {
    Model best = from ? *from : st->model, m; double cb = total(best), c0 = cb; Model start = best; int stale = 0;
    for (int i = 0; i < evals && cb > 0; i++) {
      if (stale > 400) { best = start; cb = c0; stale = 0; for (uint32_t v : vs) { VarInfo &w = g_vars[v]; uint64_t n = w.hi - w.lo; if (R() & 1) best.set(v, w.lo + (n == ~0ull ? R() : R() % (n + 1))); } cb = total(best); if (cb <= 0) break; }
      m = best; int k = 1 + R() % 3;
      for (int j = 0; j < k; j++) { uint32_t v = vs[R() % vs.size()]; VarInfo &w = g_vars[v]; uint64_t n = w.hi - w.lo, c = m.get(v), x, d = 1ull << R() % 40; d = 1 + R() % d; x = R() & 1 ? c + d : c - d; if (d > n) x = w.lo + R() % (n + 1); if (x < w.lo || x > w.hi) x = R() & 1 ? w.lo : w.hi; m.set(v, x); }
      double c = total(m); if (c < cb) stale = 0; else stale++; if (c <= cb) { best = m; cb = c; }
    }
    if (cb > 0) return false; if (out) *out = best; return true; };
  auto done = [&](bool r) { S->queries++; if (r) S->qsat++; else S->qunsat++; S->solver_us += (uint64_t)((now() - t0) * 1e6); if (g_traceQ) fprintf(stderr, "  -> %d in %.3f real\n", r, now() - t0); return r; };
  auto real = [&](int level, bool &res) { // decided by the reals, or a witness from where they point
    std::vector<std::pair<uint32_t, int64_t>> cand; int r = nraCheck(sl, level, &cand); if (r == 0) { res = false; return true; } if (r < 0) return false;
    Model m = st->model; for (auto &c : cand) { VarInfo &w = g_vars[c.first]; uint64_t x = (uint64_t)c.second; if (x >= w.lo && x <= w.hi) m.set(c.first, x); }
    if (climb(1500, &m)) { res = true; return true; } return false; };
  bool res;
  if (witness(200) || climb(600, nullptr)) return done(true);
  if (real(0, res) || real(1, res)) return done(res);
  if (!checkSat0(st, extra, nullptr, &in)) return false;
  if (climb(20000, nullptr)) return done(true);
  if (real(2, res) || real(3, res)) return done(res);
  fatal("floating point: neither a witness nor a refutation");
}

static void learn(State *st, E c, bool v) {
  st->known[c->id] = v;
  st->known[mkNot(c)->id] = !v;
  if (c->op == O_AND && v) { learn(st, c->a, true); learn(st, c->b, true); }
  if (c->op == O_OR && !v) { learn(st, c->a, false); learn(st, c->b, false); }
  if (c->op == O_XOR && c->w == 1 && isC(c->b)) { if (!st->known.count(c->a->id)) learn(st, c->a, !v); }
}
static void constrain(State *st, E c) { st->addPC(c); learn(st, c, true); }

static void violation(const Str &kind, const Str &msg, const Model *m = nullptr);

// ---- values a variable can still take, as far as constraints on it alone tell
typedef std::vector<std::pair<uint64_t, uint64_t>> Dom;
static bool oneVar(E e, E &x) { // predicate over a single variable that can be split into intervals
  if (e->op == O_XOR && e->w == 1 && isC(e->b)) return oneVar(e->a, x);
  if ((e->op == O_AND || e->op == O_OR) && e->w == 1) { E y = nullptr, z = nullptr; if (!oneVar(e->a, y) || !oneVar(e->b, z) || y != z) return false; x = y; return true; }
  if (e->op == O_PW && e->w == 1 && e->a->op == O_VAR) { x = e->a; return true; }
  if (e->op == O_EQ || e->op == O_ULT || e->op == O_ULE) { E a = e->a, b = e->b; while (a->op == O_ZEXT) a = a->a; while (b->op == O_ZEXT) b = b->a; if (a->op == O_VAR && isC(b)) { x = a; return true; } if (b->op == O_VAR && isC(a)) { x = b; return true; } }
  return false;
}
static Dom domCut(const Dom &d, E e, bool want) {
  if (e->op == O_XOR && isC(e->b)) return domCut(d, e->a, e->b->c ? !want : want);
  if (e->op == O_AND || e->op == O_OR) {
    if ((e->op == O_AND) == want) return domCut(domCut(d, e->a, want), e->b, want);
    Dom p = domCut(d, e->a, want), q = domCut(domCut(d, e->a, !want), e->b, want); p.insert(p.end(), q.begin(), q.end()); std::sort(p.begin(), p.end()); return p;
  }
  Dom r; auto add = [&](uint64_t l, uint64_t h) { if (!r.empty() && r.back().second + 1 == l) r.back().second = h; else r.push_back({l, h}); };
  if (e->op == O_PW) {
    auto &st = e->tab->starts; auto &vs = e->tab->vals;
    for (auto &q : d) { size_t i = std::upper_bound(st.begin(), st.end(), q.first) - st.begin(); if (i) i--; for (; i < st.size() && st[i] <= q.second; i++) if ((vs[i] != 0) == want) add(std::max(st[i], q.first), i + 1 < st.size() ? std::min(st[i + 1] - 1, q.second) : q.second); }
    return r;
  }
  E a = e->a, b = e->b; while (a->op == O_ZEXT) a = a->a; while (b->op == O_ZEXT) b = b->a;
  bool xl = a->op == O_VAR; uint64_t k = xl ? b->c : a->c;
  for (auto &q : d) {
    if (e->op == O_EQ) { if (k < q.first || k > q.second) { if (!want) add(q.first, q.second); } else if (want) add(k, k); else { if (k > q.first) add(q.first, k - 1); if (k < q.second) add(k + 1, q.second); } continue; }
    bool lower = xl == want; // keeps the values below the bound
    if (lower) { bool strict = xl ? e->op == O_ULT : e->op == O_ULE; if (strict && k == 0) continue; uint64_t h = strict ? k - 1 : k; if (q.first <= h) add(q.first, std::min(h, q.second)); }
    else { bool strict = xl ? e->op == O_ULE : e->op == O_ULT; if (strict && k == ~0ull) continue; uint64_t l = strict ? k + 1 : k; if (q.second >= l) add(std::max(l, q.first), q.second); }
  }
  return r;
}
static bool bigPW(E e) {
  static std::vector<uint8_t> memo; if (e->id < memo.size() && memo[e->id]) return memo[e->id] == 2;
  bool r = e->op == O_PW && e->tab->starts.size() > 24;
  for (E q : {e->a, e->b, e->d}) if (q && !r) r = bigPW(q);
  if (memo.size() <= e->id) memo.resize(e->id * 2 + 64, 0);
  memo[e->id] = r ? 2 : 1; return r;
}
struct Simp { std::map<E, Dom> dom; std::unordered_map<E, E> memo; };
static E simpRec(Simp &s, E e) {
  if (isC(e) || e->op == O_RND || e->op == O_FRAT || e->op == O_DIGIT || e->op >= O_FOP) return e;
  auto it = s.memo.find(e); if (it != s.memo.end()) return it->second;
  E r = e, x;
  if (e->op == O_VAR) { auto d = s.dom.find(e); if (d != s.dom.end() && d->second.size() == 1 && d->second[0].first == d->second[0].second) r = mkConst(d->second[0].first, e->w); }
  else if (e->w == 1 && oneVar(e, x) && s.dom.count(x)) { Dom &d = s.dom[x]; Dom t = domCut(d, e, true); if (t.empty()) r = mkConst(0, 1); else if (domCut(d, e, false).empty()) r = mkConst(1, 1); }
  if (r == e) switch (e->op) {
  case O_PW: {
    E a = simpRec(s, e->a); auto d = s.dom.find(e->a);
    if (d == s.dom.end() || isC(a)) { if (a != e->a) r = mkPW(e->tab->starts, e->tab->vals, a, e->w); break; }
    // values outside the domain take the value of their neighbour, which shortens the table
    std::vector<uint64_t> st, vs; auto &S0 = e->tab->starts; auto &V0 = e->tab->vals;
    for (auto &q : d->second) { size_t i = std::upper_bound(S0.begin(), S0.end(), q.first) - S0.begin(); if (i) i--; for (; i < S0.size() && S0[i] <= q.second; i++) if (vs.empty() || vs.back() != V0[i]) { st.push_back(vs.empty() ? 0 : std::max(S0[i], q.first)); vs.push_back(V0[i]); } }
    r = mkPW(st, vs, e->a, e->w); break; }
  case O_ITE: r = mkIte(simpRec(s, e->a), simpRec(s, e->b), simpRec(s, e->d)); break;
  case O_CONCAT: r = mkConcat(simpRec(s, e->a), simpRec(s, e->b)); break;
  case O_EXTRACT: r = mkExtract(simpRec(s, e->a), e->c, e->w); break;
  case O_ZEXT: r = mkZext(simpRec(s, e->a), e->w); break;
  case O_SEXT: r = mkSext(simpRec(s, e->a), e->w); break;
  case O_VAR: break;
  default: if (e->a && e->b && !e->d) r = mkBin(e->op, simpRec(s, e->a), simpRec(s, e->b)); break;
  }
  return s.memo[e] = r;
}
static E simpDom(State *st, E c) {
  if (!bigPW(c)) return c;
  Simp s;
  for (PC *p = st->pc; p; p = p->prev) { E x; if (oneVar(p->e, x)) { auto &d = s.dom[x]; if (d.empty()) { const VarInfo &v = g_vars[x->c]; d.push_back({v.lo, v.hi}); } d = domCut(d, p->e, true); if (d.empty()) return c; } }
  if (s.dom.empty()) return c;
  return simpRec(s, c);
}
static uint64_t g_stateCtr = 1;
static bool g_noFork = false;
// decide a width-1 condition on the current state, forking when both outcomes are possible
static bool decide(E c) {
  if (isC(c)) return c->c;
  State *st = cur;
  auto it = st->known.find(c->id);
  if (it != st->known.end()) return it->second;
  { E q = simpDom(st, c); if (q != c) { bool r = decide(q); learn(cur, r ? c : mkNot(c), true); return r; } }
  evalNewModel();
  bool s = evalExpr(c, st->model);
  E taken = s ? c : mkNot(c), other = s ? mkNot(c) : c;
  Model m;
  if (checkSat(st, other, &m)) {
    if (c->taint && !st->execs.empty()) violation("uninit", "branch depends on uninitialised memory: " + exprStr(c), nullptr);
    State *o = new State(*st); o->id = g_stateCtr++; o->model = m; constrain(o, other); o->forks++;
    work.push_back(o); S->forks++;
    constrain(st, taken); st->forks++;
  } else learn(st, taken, true);
  return s;
}
static bool decideV(Val v) { return v.e ? decide(v.e) : (v.v & 1); }
static uint64_t concretizeE(E e) {
  if (isC(e)) return e->c;
  if (e->op == O_FRAT) { uint64_t a = concretizeE(e->a), b = concretizeE(e->b); double x = (double)(int64_t)a / (double)(int64_t)b; uint64_t r; memcpy(&r, &x, 8); return r; }
  if (e->op == O_FOP) { if (e->b) { uint64_t a = concretizeE(e->a), b = concretizeE(e->b); return mkFop(e->c, mkConst(a, 64), mkConst(b, 64))->c; } return mkFop(e->c, mkConst(concretizeE(e->a), 64), nullptr)->c; }
  State *st = cur;
  if (e->w == 1) return decide(e);
  evalNewModel();
  uint64_t v = evalExpr(e, st->model);
  E q = mkEq(e, mkConst(v, e->w));
  if (isC(q)) return v;
  bool isNew = !st->known.count(q->id);
  if (isNew) { st->concretizations++; S->concretizations++; }
  if (!decide(q)) fatal("concretize: internal");
  return v;
}
static uint64_t concV(Val v) { return v.e ? concretizeE(v.e) : v.v; }
static E toE(Val v, unsigned w) { return v.e ? v.e : mkConst(v.v, w); }
static Val fromE(E e) { return isC(e) ? Val{e->c, nullptr} : Val{0, e}; }

// ------------------------------------------------------------------ reporting
static Str jsonEsc(const Str &s) { Str o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += c; } return o; }
static Str where() {
  Str s;
  for (int i = (int)cur->fr.size() - 1; i >= 0; i--) {
    Frame &f = cur->fr[i]; const Instruction *in = nullptr;
    if (f.pc < f.f->code.size()) in = f.f->code[i == (int)cur->fr.size() - 1 ? f.pc : (f.pc ? f.pc - 1 : 0)].src;
    s += (s.empty() ? "" : " < ") + f.f->name;
    if (in) if (auto &d = in->getDebugLoc()) s += ":" + std::to_string(d.getLine());
    if (s.size() > 400) break;
  }
  return s;
}
static void writeVars(FILE *f, const Model &m) {
  evalNewModel(); fprintf(f, "\"vars\": {"); bool first = true;
  for (auto &p : cur->syms) { fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jsonEsc(p.first).c_str(), (unsigned long long)evalExpr(p.second, m)); first = false; }
  fprintf(f, "}");
}
static void violation(const Str &kind, const Str &msg, const Model *m) {
  if (g_sum) { sumBail(); throw PathEnd{9}; }
  uint64_t n = S->violations++;
  Str fn = g_outdir + "/" + g_job + ".cex" + std::to_string(n) + ".json";
  FILE *f = fopen(fn.c_str(), "w");
  if (f) {
    fprintf(f, "{\"kind\": \"%s\", \"message\": \"%s\", \"where\": \"%s\", ", kind.c_str(), jsonEsc(msg).c_str(), jsonEsc(where()).c_str());
    writeVars(f, m ? *m : cur->model);
    fprintf(f, "}\n"); fclose(f);
  }
  if (g_verbose) fprintf(stderr, "VIOL %s: %s @ %s -> %s\n", kind.c_str(), msg.c_str(), where().c_str(), fn.c_str());
  if ((int)(n + 1) >= g_maxViol) S->stop = 2;
  if (kind != "assert") throw PathEnd{2};
}

// ------------------------------------------------------------------ memory
static uint32_t newObj(uint64_t size, ObjKind k, bool uninit) {
  uint32_t id = cur->nextObj++;
  cur->mem.set(id, Obj::make(size, k, uninit));
  return id;
}
static uint64_t allocObj(uint64_t size, ObjKind k, bool uninit) { return mkAddr(newObj(size, k, uninit), 0); }
[[noreturn]] static void memErr(const Str &m) { violation("memory", m); throw PathEnd{2}; }

struct Ref { uint32_t id; uint64_t off; E offE; };
static Str hex(uint64_t v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
// resolve an address for an access of n bytes
static Ref resolve(Val p, uint64_t n, bool write) {
  if (!p.e) {
    uint64_t rel = p.v - PTR_BIAS; uint32_t id = rel >> 32; uint64_t off = (uint32_t)rel;
    // allow offsets past 2^31 as negative
    if (p.v < 0x100000000ull) memErr(p.v < 4096 ? "null pointer access" : "wild pointer access " + hex(p.v));
    id = p.v >> 32; int64_t o = (int64_t)(p.v & 0xffffffffull) - (int64_t)PTR_BIAS; off = o;
    Obj *ob = cur->mem.r(id);
    if (!ob) memErr("access to freed or invalid object " + hex(p.v));
    if (o < 0 || off + n > ob->size) memErr("out-of-bounds " + Str(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at offset " + std::to_string(o) + " of object of size " + std::to_string(ob->size));
    if (ob->kind == K_FUNC || ob->kind == K_EXT) memErr("data access to opaque object");
    if (write && ob->kind == K_CONST) memErr("write to constant object");
    return Ref{id, off, nullptr};
  }
  E e = p.e;
  // pointer expression = constant base + offset
  E base = nullptr, rest = nullptr;
  if (e->op == O_ADD && isC(e->b) && e->b->c >= 0x100000000ull) { base = e->b; rest = e->a; }
  if (!base && e->op == O_PW) { // table of addresses inside one object
    uint32_t id0 = e->tab->vals[0] >> 32; bool same = id0 != 0; for (auto v : e->tab->vals) if ((v >> 32) != id0) same = false;
    if (same && e->tab->vals.size() > 4) { base = mkConst(mkAddr(id0, 0), 64); rest = mkBin(O_SUB, e, base); }
  }
  if (!base) { uint64_t v = concretizeE(e); return resolve(cv(v), n, write); }
  uint32_t id = base->c >> 32;
  Obj *ob = cur->mem.r(id);
  if (!ob || (ob->kind != K_GLOBAL && ob->kind != K_HEAP && ob->kind != K_STACK && ob->kind != K_CONST)) { uint64_t v = concretizeE(e); return resolve(cv(v), n, write); }
  uint64_t objBase = mkAddr(id, 0);
  E off = mkBin(O_ADD, rest, mkConst(base->c - objBase, 64));
  if (isC(off)) return resolve(cv(objBase + off->c), n, write);
  if (ob->size < n || !decide(mkUle(off, mkConst(ob->size - n, 64)))) {
    // a witness that shows natively: next to the object, or far from everything
    Model m; uint64_t w[3][2] = {{ob->size, ob->size + 16}, {(uint64_t)-16, (uint64_t)-1}, {1ull << 34, 1ull << 46}};
    for (auto &q : w) if (checkSat(cur, mkUle(mkBin(O_SUB, off, mkConst(q[0], 64)), mkConst(q[1] - q[0], 64)), &m)) { cur->model = m; break; }
    memErr("out-of-bounds " + Str(write ? "write" : "read") + " of " + std::to_string(n) + " bytes at symbolic offset of object of size " + std::to_string(ob->size)); }
  if (write && ob->kind == K_CONST) memErr("write to constant object");
  return Ref{id, 0, off};
}
static E freshUninit() { State *st = cur; return mkVar("uninit!" + std::to_string(st->uninitCtr++), 8, 0, 255, true); }

static bool logTouches(Obj *o, uint64_t off, unsigned n) { for (auto &l : o->log) if (l.off->lo < off + n && (off <= l.off->hi || off - l.off->hi < l.n)) return true; return false; }

static Val rdByteBase(uint32_t id, Obj *&o, uint64_t off) { // no log
  Page *p = o->pg[off / PAGE]; uint32_t k = off % PAGE;
  if (!p) {
    if (!o->uninit) return cv(0);
    o = cur->mem.w(id); p = o->pageW(off / PAGE);
  }
  if (p->un && p->un[k]) { o = cur->mem.w(id); p = o->pageW(off / PAGE); p->needSym(); p->sym[k] = freshUninit(); p->un[k] = 0; }
  if (p->sym && p->sym[k]) return Val{0, p->sym[k]};
  return cv(p->d[k]);
}
static Val rdConst(uint32_t id, Obj *o, uint64_t off, unsigned n) { // concrete offset, ignoring log
  if (off % PAGE + n <= PAGE) {
    Page *p = o->pg[off / PAGE]; uint32_t k = off % PAGE;
    if (!p && !o->uninit) return cv(0);
    if (p && !p->un && !p->sym) { uint64_t v = 0; memcpy(&v, p->d + k, n); return cv(v); }
    if (p && !p->un) { bool s = false; for (unsigned i = 0; i < n; i++) if (p->sym[k + i]) { s = true; break; } if (!s) { uint64_t v = 0; memcpy(&v, p->d + k, n); return cv(v); } }
  }
  bool sym = false; Val b[8];
  for (unsigned i = 0; i < n; i++) { b[i] = rdByteBase(id, o, off + i); if (b[i].e) sym = true; }
  if (!sym) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= b[i].v << (8 * i); return cv(v); }
  E e = toE(b[n - 1], 8);
  for (int i = (int)n - 2; i >= 0; i--) e = mkConcat(e, toE(b[i], 8));
  if (e->op == O_EXTRACT) e = mkExtract(e->a, e->c, e->w);
  return fromE(e);
}
static void affine(E off, uint64_t &k, uint64_t &c, E &x);
// is a partial overlap of two n-byte accesses impossible from the strides alone?
static bool noPartial(E a, E b, unsigned n) {
  auto st = [&](E e, uint64_t &k, uint64_t &c) { if (isC(e)) { k = 0; c = e->c; return; } E x; affine(e, k, c, x); };
  uint64_t ka, ca, kb, cb; st(a, ka, ca); st(b, kb, cb);
  uint64_t g = ka, h = kb; while (h) { uint64_t t = g % h; g = h; h = t; }
  if (g == 0) return false;
  if (g < n) return false;
  if ((g & (g - 1)) == 0) return ((ca - cb) & (g - 1)) == 0; // exact even when wrapping
  uint64_t M = 1ull << 40; // in-bounds offsets with a known exact form
  if (ca >= M || cb >= M) return false;
  return (ca > cb ? ca - cb : cb - ca) % g == 0;
}
// apply the write log to a read at (concrete or symbolic) offset
static Val applyLog(Obj *o, Val v, E offE, unsigned n) {
  for (auto &l : o->log) {
    if ((l.off->lo > offE->hi && l.off->lo - offE->hi >= n) || (offE->lo > l.off->hi && offE->lo - l.off->hi >= l.n)) continue;
    E d = mkBin(O_SUB, offE, l.off);
    if (l.n == n) {
      E eq = mkEq(d, mkConst(0, 64));
      E ov = mkUlt(mkBin(O_ADD, d, mkConst(n - 1, 64)), mkConst(2 * n - 1, 64));
      E part = mkBin(O_AND, ov, mkNot(eq));
      if ((!isC(part) || part->c) && !noPartial(offE, l.off, n)) {
        auto it = cur->known.find(part->id);
        bool can = true;
        if (it != cur->known.end()) can = it->second; else { can = checkSat(cur, part, nullptr); if (!can) learn(cur, part, false); }
        if (can) fatal("partial overlap of symbolic accesses");
      }
      if (isC(eq)) { if (eq->c) v = l.v; continue; }
      auto it = cur->known.find(eq->id);
      if (it != cur->known.end()) { if (it->second) v = l.v; continue; }
      v = fromE(mkIte(eq, toE(l.v, 8 * n), toE(v, 8 * n)));
    } else {
      E ov = mkUlt(mkBin(O_ADD, d, mkConst(n - 1, 64)), mkConst(n + l.n - 1, 64));
      if (isC(ov) && !ov->c) continue;
      if (!isC(ov)) { auto it = cur->known.find(ov->id); bool can = it != cur->known.end() ? it->second : checkSat(cur, ov, nullptr); if (!can) { learn(cur, ov, false); continue; } }
      fatal("overlap of symbolic accesses of different size");
    }
  }
  return v;
}
// off = k*x + c
static void affine(E off, uint64_t &k, uint64_t &c, E &x) {
  k = 1; c = 0; x = off;
  while (true) {
    if (x->op == O_ADD && isC(x->b)) { c += k * x->b->c; x = x->a; continue; }
    if (x->op == O_MUL && isC(x->b)) { k *= x->b->c; x = x->a; continue; }
    if (x->op == O_CONCAT && isC(x->b) && x->b->c == 0) { k <<= x->b->w; x = x->a; continue; }
    if (x->op == O_ZEXT) { 
      E y = x->a;
      if (y->op == O_CONCAT && isC(y->b) && y->b->c == 0) { x = y; continue; }
      if (y->op == O_ADD && isC(y->b) && y->a->hi <= maskw(y->w) - y->b->c) { c += k * y->b->c; x = y->a; continue; }
      x = y; break; }
    break;
  }
}
// the least and the greatest value on this path
static void tighten(E x, uint64_t &lo, uint64_t &hi) {
  uint64_t a = lo, b = hi; Model m;
  while (a < b) { uint64_t mid = a + (b - a) / 2; if (checkSat(cur, mkUlt(mkConst(mid, x->w), x), &m)) { uint64_t v = evalExpr(x, m); a = std::max(mid + 1, v); } else b = mid; }
  hi = a; a = lo; b = hi;
  while (a < b) { uint64_t mid = a + (b - a) / 2; if (checkSat(cur, mkUle(x, mkConst(mid, x->w)), &m)) { uint64_t v = evalExpr(x, m); b = std::min(mid, v); } else a = mid + 1; }
  lo = a;
}
static std::unordered_map<uint64_t, E> g_tabCache; 
static Val loadMem(Val p, unsigned w) {
  unsigned n = (w + 7) / 8;
  Ref r = resolve(p, n, false);
  Obj *o = cur->mem.r(r.id);
  Val v;
  if (!r.offE) {
    v = rdConst(r.id, o, r.off, n);
    o = cur->mem.r(r.id);
    if (!o->log.empty() && logTouches(o, r.off, n)) v = applyLog(o, v, mkConst(r.off, 64), n);
  } else {
    if (r.offE->op == O_PW && o->log.empty()) {
      std::vector<uint64_t> vs; bool ok = true;
      for (auto off : r.offE->tab->vals) { if (off > o->size || off + n > o->size) { vs.push_back(vs.empty() ? 0 : vs.back()); continue; } Val q = rdConst(r.id, o, off, n); o = cur->mem.r(r.id); if (q.e) { ok = false; break; } vs.push_back(q.v); }
      if (ok) { v = fromE(mkPW(r.offE->tab->starts, vs, r.offE->a, 8 * n)); if (w < 8 * n) v = v.e ? fromE(mkExtract(v.e, 0, w)) : cv(v.v & maskw(w)); return v; }
    }
    uint64_t k, c; E x; affine(r.offE, k, c, x);
    uint64_t key = ((uint64_t)r.offE->id << 32) ^ ((uint64_t)r.id << 4) ^ n; bool cacheable = o->kind == K_CONST;
    auto ci = cacheable ? g_tabCache.find(key) : g_tabCache.end();
    if (cacheable && ci != g_tabCache.end()) v = fromE(ci->second);
    else {
      uint64_t lo = x->lo, hi = x->hi;
      // clip to the object (the bounds decision has been made)
      std::vector<uint64_t> st, vs; bool sym = false;
      if (hi - lo > 4000000) tighten(x, lo, hi);
      if (hi - lo > 4000000) fatal("symbolic read over too large a range: " + exprStr(r.offE, 6));
      struct R { uint64_t a; Val v; }; std::vector<R> runs;
      for (uint64_t i = lo;; i++) {
        uint64_t off = c + k * i;
        if (off + n <= o->size && off <= o->size) {
          Val q = rdConst(r.id, o, off, n); o = cur->mem.r(r.id);
          if (q.e) sym = true;
          if (runs.empty() || runs.back().v.e != q.e || runs.back().v.v != q.v) { runs.push_back({i, q}); if (sym && runs.size() > 400) fatal("symbolic read over many distinct cells"); }
        }
        if (i == hi) break;
      }
      if (runs.empty()) fatal("symbolic read: no cell");
      E res;
      if (!sym) { for (auto &q : runs) { st.push_back(st.empty() ? 0 : q.a); vs.push_back(q.v.v); } res = mkPW(st, vs, x, 8 * n); }
      else {
        std::function<E(size_t, size_t)> tree = [&](size_t i, size_t j) -> E { if (j - i == 1) return toE(runs[i].v, 8 * n); size_t m = (i + j) / 2; return mkIte(mkUlt(x, mkConst(runs[m].a, x->w)), tree(i, m), tree(m, j)); };
        res = tree(0, runs.size());
      }
      v = fromE(res);
      if (cacheable && !sym && o->log.empty()) g_tabCache[key] = res;
    }
    if (!o->log.empty()) v = applyLog(o, v, r.offE, n);
  }
  if (w < 8 * n) { if (v.e) v = fromE(mkExtract(v.e, 0, w)); else v.v &= maskw(w); }
  return v;
}
static void wrConst(uint32_t id, uint64_t off, Val v, unsigned n) {
  Obj *o = cur->mem.w(id);
  if (!v.e && off % PAGE + n <= PAGE) {
    Page *p = o->pageW(off / PAGE); uint32_t k = off % PAGE;
    memcpy(p->d + k, &v.v, n);
    if (p->sym) memset(p->sym + k, 0, n * sizeof(E));
    if (p->un) memset(p->un + k, 0, n);
    return;
  }
  for (unsigned i = 0; i < n; i++) {
    Page *p = o->pageW((off + i) / PAGE); uint32_t k = (off + i) % PAGE;
    if (p->un) p->un[k] = 0;
    if (!v.e) { p->d[k] = v.v >> (8 * i); if (p->sym) p->sym[k] = 0; }
    else {
      E b = mkExtractRaw(v.e, 8 * i, 8);
      if (isC(b)) { p->d[k] = b->c; if (p->sym) p->sym[k] = 0; }
      else { p->needSym(); p->sym[k] = b; p->d[k] = 0; }
    }
  }
}
static void storeMem(Val p, Val v, unsigned w) {
  unsigned n = (w + 7) / 8;
  if (w < 8 * n && v.e) v.e = mkZext(v.e, 8 * n);
  Ref r = resolve(p, n, true);
  Obj *o = cur->mem.r(r.id);
  if (!r.offE) {
    if (!o->log.empty() && logTouches(o, r.off, n)) { o = cur->mem.w(r.id); o->log.push_back({mkConst(r.off, 64), n, v}); return; }
    wrConst(r.id, r.off, v, n); return;
  }
  uint64_t k, c; E x; affine(r.offE, k, c, x);
  if (x->hi - x->lo < 24 && k >= n && o->log.empty()) {
    std::vector<std::pair<uint64_t, Val>> wr;
    for (uint64_t i = x->lo; i <= x->hi; i++) {
      uint64_t off = c + k * i; if (off > o->size || off + n > o->size) continue;
      Val old = rdConst(r.id, o, off, n); o = cur->mem.r(r.id);
      wr.push_back({off, fromE(mkIte(mkEq(x, mkConst(i, x->w)), toE(v, 8 * n), toE(old, 8 * n)))});
    }
    for (auto &q : wr) wrConst(r.id, q.first, q.second, n);
    return;
  }
  o = cur->mem.w(r.id);
  if (o->log.size() > 200) fatal("too many symbolic writes");
  o->log.push_back({r.offE, n, v});
}
static Val rdB(uint64_t addr) { return loadMem(cv(addr), 8); }
static void wrB(uint64_t addr, Val v) { storeMem(cv(addr), v, 8); }
static uint64_t ptrC(Val p) { return concV(p); }
static Val addV(Val p, uint64_t k) { return p.e ? fromE(mkBin(O_ADD, p.e, mkConst(k, 64))) : cv(p.v + k); }

// NUL-terminated string; decides where it ends
static std::vector<Val> cstr(Val pv) {
  uint64_t p = ptrC(pv); std::vector<Val> out;
  for (uint64_t i = 0;; i++) {
    Val b = rdB(p + i);
    if (b.e) { if (decide(mkEq(b.e, mkConst(0, 8)))) break; } else if (!b.v) break;
    out.push_back(b);
  }
  return out;
}
static Str cstrC(Val p) { Str s; for (auto &b : cstr(p)) s += (char)concV(b); return s; }

// ------------------------------------------------------------------ files
static FileEnt *findFile(const Str &n) { for (auto &f : cur->files) if (f.name == n) return &f; return nullptr; }
static FileEnt *makeFile(const Str &n) {
  FileEnt *f = findFile(n);
  if (!f) { cur->files.push_back({n, 0, false}); f = &cur->files.back(); }
  uint32_t id = newObj(0, K_FILE, false);
  if (f->exists) cur->mem.set(f->obj, nullptr);
  f = findFile(n); f->obj = id; f->exists = true;
  return f;
}
static void fileAppend(FileEnt *f, uint64_t pos, const std::vector<Val> &b) {
  Obj *o = cur->mem.w(f->obj);
  if (pos + b.size() > o->size) {
    o->resize(pos + b.size());
  }
  for (size_t i = 0; i < b.size(); i++) {
    uint32_t pi = (pos + i) / PAGE, k = (pos + i) % PAGE;
    if (!o->pg[pi]) { o->pg[pi] = Page::make(PAGE); }
    Page *p = o->pageW(pi);
    if (b[i].e) { p->needSym(); p->sym[k] = b[i].e; p->d[k] = 0; } else { p->d[k] = b[i].v; if (p->sym) p->sym[k] = 0; }
  }
}
static Val fileByte(FileEnt *f, uint64_t pos) { Obj *o = cur->mem.r(f->obj); Page *p = o->pg[pos / PAGE]; if (!p) return cv(0); uint32_t k = pos % PAGE; if (p->sym && p->sym[k]) return Val{0, p->sym[k]}; return cv(p->d[k]); }
static uint64_t fileSize(FileEnt *f) { return cur->mem.r(f->obj)->size; }
static OpenFile *handle(Val h) {
  uint64_t a = ptrC(h); uint32_t id = a >> 32;
  if (a < 0x100000000ull) memErr("null or invalid FILE handle");
  for (auto &f : cur->open) if (f.handle == id && f.open) return &f;
  memErr("use of closed or invalid FILE handle");
}
static void outBytes(OpenFile *of, const std::vector<Val> &b) {
  if (!of->wr) return;
  FileEnt *f = findFile(of->name); if (!f || !f->exists) f = makeFile(of->name);
  if (of->append) of->pos = fileSize(f);
  fileAppend(f, of->pos, b); of->pos += b.size();
}
static OpenFile *stdHandle(uint32_t id) { for (auto &f : cur->open) if (f.handle == id) return &f; fatal("std handle"); }

// ------------------------------------------------------------------ numbers
static uint64_t p10(unsigned k) { uint64_t p = 1; while (k--) p *= 10; return p; }
// decimal digits of an unsigned 64-bit value (decides the number of digits)
static std::vector<Val> udigits(Val v) {
  std::vector<Val> r;
  if (!v.e) { Str s = std::to_string((unsigned long long)v.v); for (char c : s) r.push_back(cv((uint8_t)c)); return r; }
  unsigned nd = 1;
  while (nd < 19 && !decide(mkUlt(v.e, mkConst(p10(nd), 64)))) nd++;
  for (int k = nd - 1; k >= 0; k--) r.push_back(fromE(mkBin(O_ADD, mkDigit(v.e, k, nd), mkConst('0', 8))));
  return r;
}
// a value right-justified in a field without deciding its length: cell k of nd is a blank or a digit
static std::unordered_map<E, std::pair<E, unsigned>> g_padBase; // first cell -> value, digits
static E padCell(E v, unsigned k, unsigned nd, unsigned minDigits) {
  E d = mkBin(O_ADD, mkDigit(v, k, nd), mkConst('0', 8));
  if (k < minDigits) return d;
  return mkIte(mkUlt(v, mkConst(p10(k), 64)), mkConst(' ', 8), d);
}
static std::vector<Val> padCellsNeg(E v, unsigned nd, unsigned minDigits, int point) { // v > 0 shown with a minus sign before its first digit
  std::vector<Val> r;
  for (int k = nd; k >= 0; k--) {
    E c = padCell(v, k, nd + 1, minDigits);
    if (k >= (int)minDigits) {
      E sg = k == (int)minDigits ? mkConst('-', 8) : mkIte(mkUlt(v, mkConst(p10(k - 1), 64)), mkConst(' ', 8), mkConst('-', 8));
      c = k == (int)nd ? sg : mkIte(mkUlt(v, mkConst(p10(k), 64)), sg, c);
    }
    r.push_back(fromE(c)); if (point > 0 && k == point) r.push_back(cv('.'));
  }
  return r;
}
static std::vector<Val> padCells(E v, unsigned nd, unsigned minDigits, int point) {
  std::vector<Val> r;
  for (int k = nd - 1; k >= 0; k--) { r.push_back(fromE(padCell(v, k, nd, minDigits))); if (point > 0 && k == point) r.push_back(cv('.')); }
  if (point <= 0 && nd > 1 && r[0].e) g_padBase[r[0].e] = {v, nd};
  return r;
}
static void pad(std::vector<Val> &out, const std::vector<Val> &b, int width, bool left, char fill) {
  if (left) { out.insert(out.end(), b.begin(), b.end()); for (int i = b.size(); i < width; i++) out.push_back(cv(' ')); return; }
  for (int i = b.size(); i < width; i++) out.push_back(cv((uint8_t)fill));
  out.insert(out.end(), b.begin(), b.end());
}
static Val vaArg(const std::vector<Val> &args, size_t &i, uint64_t &vaPtr, unsigned w);

static std::vector<Val> format(const std::vector<Val> &fmt, const std::vector<Val> &args, size_t ai, bool *fpArgs = nullptr) {
  std::vector<Val> out;
  auto next = [&]() -> Val { if (ai >= args.size()) { violation("memory", "printf: missing argument"); } return args[ai++]; };
  for (size_t i = 0; i < fmt.size(); i++) {
    uint64_t c = concV(fmt[i]);
    if (c != '%') { out.push_back(cv(c)); continue; }
    i++;
    bool left = false, zero = false, plus = false, sharp = false; int width = 0, prec = -1; int lng = 0;
    for (; i < fmt.size(); i++) { c = concV(fmt[i]); if (c == '-') left = true; else if (c == '0') zero = true; else if (c == '+') plus = true; else if (c == '#') sharp = true; else if (c == ' ') ; else break; }
    if (i < fmt.size() && concV(fmt[i]) == '*') { width = (int)concV(next()); i++; if (width < 0) { left = true; width = -width; } }
    else while (i < fmt.size() && (c = concV(fmt[i])) >= '0' && c <= '9') { width = width * 10 + (c - '0'); i++; }
    if (i < fmt.size() && concV(fmt[i]) == '.') { i++; prec = 0; if (concV(fmt[i]) == '*') { prec = (int)concV(next()); i++; } else while (i < fmt.size() && (c = concV(fmt[i])) >= '0' && c <= '9') { prec = prec * 10 + (c - '0'); i++; } }
    while (i < fmt.size() && ((c = concV(fmt[i])) == 'l' || c == 'h' || c == 'z' || c == 'j')) { if (c == 'l' || c == 'z' || c == 'j') lng++; else lng--; i++; }
    if (i >= fmt.size()) break;
    c = concV(fmt[i]);
    std::vector<Val> b;
    switch (c) {
    case '%': out.push_back(cv('%')); break;
    case 'c': { Val v = next(); if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.v &= 255; b.push_back(v); pad(out, b, width, left, ' '); break; }
    case 's': { Val v = next(); 
      if (!v.e && v.v == 0) { for (char q : Str("(null)")) b.push_back(cv(q)); }
      else if (prec >= 0) { uint64_t p = ptrC(v); for (int k = 0; k < prec; k++) { Val q = rdB(p + k); if (q.e ? decide(mkEq(q.e, mkConst(0, 8))) : q.v == 0) break; b.push_back(q); } }
      else b = cstr(v);
      pad(out, b, width, left, ' '); break; }
    case 'd': case 'i': case 'u': {
      Val v = next(); unsigned w = lng > 0 ? 64 : lng == -1 ? 16 : lng < -1 ? 8 : 32;
      bool neg = false;
      if (v.e) { if (v.e->w < 64 && v.e->w > w) v.e = mkExtract(v.e, 0, w); else if (v.e->w > w) v.e = mkExtract(v.e, 0, w);
        if (v.e->w < w) w = v.e->w; 
        if (c == 'u') v.e = mkZext(v.e, 64); else v.e = mkSext(v.e, 64); if (isC(v.e)) v = cv(v.e->c); }
      else v.v = c == 'u' ? v.v & maskw(w) : (uint64_t)sextw(v.v & maskw(w), w);
      if (c != 'u') { neg = v.e ? decide(mkSlt(v.e, mkConst(0, 64))) : (int64_t)v.v < 0; if (neg) v = v.e ? fromE(mkBin(O_SUB, mkConst(0, 64), v.e)) : cv(-v.v); }
      if (v.e && !neg && !left && !zero && !plus && prec < 0 && width > 1 && width < 18 && v.e->hi >= 10 && (v.e->hi < p10(width) || decide(mkUlt(v.e, mkConst(p10(width), 64))))) {
        unsigned nd = 1; while (nd < (unsigned)width && v.e->hi >= p10(nd)) nd++;
        b = padCells(v.e, nd, 1, 0); pad(out, b, width, false, ' '); break;
      }
      b = udigits(v);
      while ((int)b.size() < prec) b.insert(b.begin(), cv('0'));
      Val sg = cv(neg ? '-' : '+'); bool hs = neg || plus;
      if (zero && !left && prec < 0) { while ((int)b.size() + hs < width) b.insert(b.begin(), cv('0')); }
      if (hs) b.insert(b.begin(), sg);
      pad(out, b, width, left, ' '); break; }
    case 'x': case 'X': case 'p': case 'o': {
      if (c == 'p') lng = 1;
      Val v = next(); unsigned w = lng > 0 ? 64 : 32;
      if (!v.e) { char t[64]; v.v &= maskw(w); snprintf(t, 64, c == 'o' ? "%llo" : c == 'X' ? "%llX" : "%llx", (unsigned long long)v.v); for (char *q = t; *q; q++) b.push_back(cv((uint8_t)*q)); }
      else {
        if (c == 'o') fatal("symbolic octal");
        E e = v.e; if (e->w > w) e = mkExtract(e, 0, w); e = mkZext(e, 64);
        unsigned nd = 1; while (nd < 16 && !decide(mkUlt(e, mkConst(1ull << (4 * nd), 64)))) nd++;
        for (int k = nd - 1; k >= 0; k--) {
          E nb = mkExtract(e, 4 * k, 4); std::vector<uint64_t> hs, hv;
          for (int q = 0; q < 16; q++) { hs.push_back(q); hv.push_back(q < 10 ? '0' + q : (c == 'X' ? 'A' : 'a') + q - 10); }
          b.push_back(fromE(mkPW(hs, hv, nb, 8)));
        }
      }
      while ((int)b.size() < prec) b.insert(b.begin(), cv('0'));
      if (sharp || c == 'p') { b.insert(b.begin(), cv('x')); b.insert(b.begin(), cv('0')); }
      pad(out, b, width, left, zero && prec < 0 ? '0' : ' '); break; }
    case 'f': case 'g': case 'e': {
      Val v = next(); if (prec < 0) prec = 6;
      if (v.e && c == 'f' && prec <= 4 && v.e->op == O_FRAT) {
        E x = v.e->a, y = v.e->b; bool neg = decide(mkSlt(x, mkConst(0, 64)));
        if (neg) x = mkBin(O_SUB, mkConst(0, 64), x);
        int full = width; if (width > 8 && !left && !zero) width = 8; int room = width - 1 - prec - (neg ? 1 : 0); // digit columns before the point
        bool cells = !left && !zero && prec > 0 && room >= 3 && width <= 10 && y->hi <= (1ull << 44) / p10(room) && decide(mkSle(x, mkBin(O_MUL, y, mkConst(p10(room) - 1, 64))));
        if (!cells) width = full;
        if (cells) { uint64_t xm = y->hi * (p10(room) - 1); unsigned n = 1; while (xm >> n) n++; if (x->hi > xm) x = mkZext(mkExtract(x, 0, n), 64); }
        if (!cells && (x->hi > (1ull << 40) || y->hi > (1ull << 40))) { 
          if (!decide(mkSle(x, mkConst(1ull << 40, 64))) || !decide(mkSle(y, mkConst(1ull << 40, 64)))) fatal("%f of huge ratio"); }
        E r = isC(y) && (p10(prec) % y->c) == 0 ? mkBin(O_MUL, x, mkConst(p10(prec) / y->c, 64)) : mkRnd(x, y, prec);
        Val rv = fromE(r);
        if (rv.e && cells && !neg) {
          b = padCells(rv.e, width - 1, prec + 1, prec); pad(out, b, full, false, ' '); break;
        }
        if (rv.e && cells && neg) {
          b = padCellsNeg(rv.e, width - 2, prec + 1, prec); pad(out, b, full, false, ' '); break;
        }
        unsigned nd = 1; while (nd < 19 && !(rv.e ? decide(mkUlt(rv.e, mkConst(p10(nd), 64))) : rv.v < p10(nd))) nd++;
        if ((int)nd < prec + 1) nd = prec + 1;
        for (int k = nd - 1; k >= 0; k--) {
          if (rv.e) b.push_back(fromE(mkBin(O_ADD, mkDigit(rv.e, k, nd), mkConst('0', 8)))); else b.push_back(cv('0' + rv.v / p10(k) % 10));
          if (k == prec && prec > 0) b.push_back(cv('.'));
        }
        if (neg) b.insert(b.begin(), cv('-'));
        width = full;
      } else if (g_real && v.e && c == 'f' && prec <= 4) {
        E x = v.e; bool neg = decide(mkFcmp(0, x, mkConst(0, 64))); if (neg) x = mkFop(1, mkConst(0, 64), x);
        { double L = 1e12; uint64_t u; memcpy(&u, &L, 8); if (!decide(mkFcmp(0, x, mkConst(u, 64)))) fatal("%f of a huge number"); }
        E r = mkFprt(x, prec); Val rv = fromE(r);
        if (rv.e && !neg && !left && !zero && prec > 0 && width >= prec + 3 && width <= 12 && decide(mkUlt(r, mkConst(p10(width - 1), 64)))) { b = padCells(r, width - 1, prec + 1, prec); pad(out, b, width, false, ' '); break; }
        unsigned nd = prec + 1; while (nd < 18 && !(rv.e ? decide(mkUlt(rv.e, mkConst(p10(nd), 64))) : rv.v < p10(nd))) nd++;
        for (int k = nd - 1; k >= 0; k--) { if (rv.e) b.push_back(fromE(mkBin(O_ADD, mkDigit(rv.e, k, nd), mkConst('0', 8)))); else b.push_back(cv('0' + rv.v / p10(k) % 10)); if (k == prec && prec > 0) b.push_back(cv('.')); }
        if (neg) b.insert(b.begin(), cv('-'));
      } else {
        uint64_t d = concV(v); double x; memcpy(&x, &d, 8); char t[400], ff[16];
        snprintf(ff, 16, "%%%s.*%c", plus ? "+" : "", (char)c); snprintf(t, 400, ff, prec, x); for (char *q = t; *q; q++) b.push_back(cv((uint8_t)*q));
      }
      pad(out, b, width, left, zero ? '0' : ' '); break; }
    default: fatal(Str("printf conversion ") + (char)c);
    }
  }
  return out;
}

// byte source for scanning
typedef std::function<bool(uint64_t, Val &)> Src; // false at end
static bool isIn(Val b, uint64_t lo, uint64_t hi) { if (!b.e) return b.v >= lo && b.v <= hi; return decide(mkUle(mkBin(O_SUB, b.e, mkConst(lo, 8)), mkConst(hi - lo, 8))); }
static bool isEqB(Val b, uint64_t c) { if (!b.e) return b.v == c; return decide(mkEq(b.e, mkConst(c, 8))); }
static bool isSp(Val b) { return !b.e ? (b.v == ' ' || (b.v >= 9 && b.v <= 13)) : decide(mkBin(O_OR, mkEq(b.e, mkConst(' ', 8)), mkUle(mkBin(O_SUB, b.e, mkConst(9, 8)), mkConst(4, 8)))); }
static Val sumDigits(const std::vector<Val> &ds) {
  bool sym = false; for (auto &d : ds) if (d.e) sym = true;
  if (!sym) { Str s; for (auto &d : ds) s += (char)d.v; errno = 0; return cv(std::min<uint64_t>(strtoull(s.c_str(), 0, 10), INT64_MAX)); }
  if (ds.size() > 18) fatal("symbolic number with more than 18 digits");
  // digits of one value?
  E base = nullptr; bool ok = true; unsigned nd = ds.size();
  for (unsigned i = 0; i < nd && ok; i++) {
    E e = ds[i].e; if (!e || e->op != O_ADD || e->a->op != O_DIGIT || !isC(e->b) || e->b->c != '0') { ok = false; break; }
    E g = e->a; unsigned k = g->c & 255, n = g->c >> 8;
    if (n != nd || k != nd - 1 - i) ok = false;
    if (!base) base = g->a; else if (base != g->a) ok = false;
  }
  if (ok && base) { if (base->hi < p10(nd)) return fromE(base); if (decide(mkUlt(base, mkConst(p10(nd), 64)))) return fromE(base); }
  E acc = mkConst(0, 64);
  for (auto &d : ds) acc = mkBin(O_ADD, mkBin(O_MUL, acc, mkConst(10, 64)), mkZext(mkBin(O_SUB, toE(d, 8), mkConst('0', 8)), 64));
  return fromE(acc);
}
// strtol-like; returns false if no digits; pos advanced past the number
// a whole field of padCells starting here?
static bool padField(const Src &g, uint64_t i, Val b, Val &out, unsigned &len) {
  if (!b.e) return false;
  auto it = g_padBase.find(b.e); if (it == g_padBase.end()) return false;
  E v = it->second.first; unsigned nd = it->second.second; Val q;
  for (unsigned k = 0; k < nd; k++) { if (!g(i + k, q)) return false; if (toE(q, 8) != toE(fromE(padCell(v, nd - 1 - k, nd, 1)), 8)) return false; }
  if (g(i + nd, q) && (q.e ? isIn(q, '0', '9') : q.v >= '0' && q.v <= '9')) return false;
  out = fromE(v); len = nd; return true;
}
static bool scanLong(const Src &g, uint64_t &pos, Val &out, bool skipws) {
  Val b; uint64_t i = pos; unsigned fl;
  if (skipws) while (g(i, b) && !(b.e && g_padBase.count(b.e)) && isSp(b)) i++;
  if (g(i, b) && padField(g, i, b, out, fl)) { pos = i + fl; return true; }
  if (skipws) while (g(i, b) && isSp(b)) i++;
  bool neg = false;
  if (g(i, b) && isEqB(b, '-')) { neg = true; i++; } else if (g(i, b) && isEqB(b, '+')) i++;
  std::vector<Val> ds;
  while (g(i, b) && isIn(b, '0', '9')) { ds.push_back(b); i++; }
  if (ds.empty()) { pos = i; return false; }
  Val v = sumDigits(ds);
  if (!v.e && ds.size() >= 19) { Str s; for (auto &d : ds) s += (char)d.v; errno = 0; long q = strtol(((neg ? "-" : "") + s).c_str(), 0, 10); out = cv((uint64_t)q); pos = i; return true; }
  if (neg) v = v.e ? fromE(mkBin(O_SUB, mkConst(0, 64), v.e)) : cv(-v.v);
  out = v; pos = i; return true;
}
static bool scanHex(const Src &g, uint64_t &pos, Val &out) {
  Val b; uint64_t i = pos;
  while (g(i, b) && isSp(b)) i++;
  bool neg = false;
  if (g(i, b) && isEqB(b, '-')) { neg = true; i++; } else if (g(i, b) && isEqB(b, '+')) i++;
  E acc = mkConst(0, 32); unsigned n = 0; Val b1, b2;
  if (g(i, b) && isEqB(b, '0')) {
    if (g(i + 1, b1) && (isEqB(b1, 'x') || isEqB(b1, 'X'))) { i += 2; n = 0;
      if (!(g(i, b2) && (isIn(b2, '0', '9') || isIn(b2, 'a', 'f') || isIn(b2, 'A', 'F')))) { pos = i; return false; } }
  }
  static std::vector<uint64_t> T0, TC, TV;
  if (T0.empty()) for (int q = 0; q < 256; q++) { T0.push_back(q); bool h = isxdigit(q); TC.push_back(h); TV.push_back(!h ? 0 : q <= '9' ? q - '0' : (q | 32) - 'a' + 10); }
  while (g(i, b)) {
    E be = toE(b, 8);
    if (!decide(mkPW(T0, TC, be, 1))) break;
    E d = mkPW(T0, TV, be, 8);
    n++; if (n > 16) fatal("long hex number");
    acc = mkConcat(mkExtract(acc, 0, 28), mkExtract(d, 0, 4)); i++;
  }
  if (!n) { pos = i; return false; }
  if (n > 8 && 0) {}
  out = fromE(neg ? mkBin(O_SUB, mkConst(0, 32), acc) : acc); pos = i; return true;
}

// ------------------------------------------------------------------ natives
typedef Val (*Native)(std::vector<Val> &a, CallT &ct);
static std::map<Str, Native> NAT;
struct RunExec { Str tool; std::vector<Str> argv; };
static void startExec(const Str &tool, const std::vector<std::vector<Val>> &argv, int dest);
static void unwindTo(int kind, Val status);
static int pendingDest = -1;
static bool frameChanged = false;

static uint64_t allocBytes(const std::vector<Val> &b) { uint64_t p = allocObj(b.size() ? b.size() : 1, K_HEAP, true); for (size_t i = 0; i < b.size(); i++) wrB(p + i, b[i]); return p; }
static Val n_calloc(std::vector<Val> &a, CallT &) { uint64_t n = concV(a[0]), s = concV(a[1]); if (n * s > (1ull << 30)) return cv(0); return cv(allocObj(n * s, K_HEAP, false)); }
static Val n_malloc(std::vector<Val> &a, CallT &) { uint64_t n = concV(a[0]); if (n > (1ull << 30)) return cv(0); return cv(allocObj(n, K_HEAP, true)); }
static Val n_free(std::vector<Val> &a, CallT &) {
  uint64_t p = concV(a[0]); if (!p) return cv(0);
  uint32_t id = p >> 32; Obj *o = cur->mem.r(id);
  if (!o) memErr("double free or free of invalid pointer");
  if (o->kind != K_HEAP || p != mkAddr(id, 0)) memErr("free of a pointer that is not a heap block");
  cur->mem.set(id, nullptr); return cv(0);
}
static void copyMem(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Ref rs = resolve(cv(s), n, false), rd = resolve(cv(d), n, true);
  Obj *so = cur->mem.r(rs.id), *dob = cur->mem.r(rd.id);
  if (!so->log.empty() || !dob->log.empty()) {
    // copy by words of 8 then bytes
    std::vector<std::pair<unsigned, Val>> t; uint64_t i = 0; while (i < n) { unsigned k = n - i >= 8 ? 8 : 1; t.push_back({k, loadMem(cv(s + i), 8 * k)}); i += k; }
    i = 0; for (auto &q : t) { storeMem(cv(d + i), q.second, 8 * q.first); i += q.first; }
    return;
  }
  std::vector<uint8_t> db(n); std::vector<E> ds(n, nullptr); std::vector<uint8_t> un(n, 0);
  for (uint64_t i = 0; i < n;) {
    uint64_t off = rs.off + i; uint32_t pi = off / PAGE, k = off % PAGE; uint64_t len = std::min<uint64_t>(n - i, PAGE - k);
    Page *p = so->pg[pi];
    if (p) { memcpy(&db[i], p->d + k, len); if (p->sym) memcpy(&ds[i], p->sym + k, len * sizeof(E)); if (p->un) memcpy(&un[i], p->un + k, len); }
    else if (so->uninit) memset(&un[i], 1, len);
    i += len;
  }
  Obj *o = cur->mem.w(rd.id);
  for (uint64_t i = 0; i < n; i++) {
    uint64_t off = rd.off + i; uint32_t pi = off / PAGE, k = off % PAGE;
    if (!o->pg[pi] && !o->uninit && !db[i] && !ds[i] && !un[i]) continue;
    Page *p = o->pageW(pi);
    p->d[k] = db[i];
    if (ds[i]) { p->needSym(); p->sym[k] = ds[i]; } else if (p->sym) p->sym[k] = 0;
    if (un[i]) { if (!p->un) p->un = (uint8_t *)calloc(1, p->len); p->un[k] = 1; } else if (p->un) p->un[k] = 0;
  }
}
static Val n_realloc(std::vector<Val> &a, CallT &ct) {
  uint64_t p = concV(a[0]), n = concV(a[1]);
  if (!p) { uint64_t q = allocObj(n, K_HEAP, true); return cv(q); }
  Obj *o = cur->mem.r(p >> 32); if (!o || o->kind != K_HEAP || p != mkAddr(p >> 32, 0)) memErr("realloc of invalid pointer");
  uint64_t m = std::min(n, o->size); uint64_t q = allocObj(n, K_HEAP, true); copyMem(q, p, m); cur->mem.set(p >> 32, nullptr); return cv(q);
}
static Val n_memcpy(std::vector<Val> &a, CallT &) { uint64_t n = concV(a[2]), d = concV(a[0]), s = concV(a[1]); copyMem(d, s, n); return cv(d); }
static Val n_memset(std::vector<Val> &a, CallT &) {
  uint64_t d = concV(a[0]), n = concV(a[2]); Val v = a[1]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.v &= 255;
  if (n) resolve(cv(d), n, true);
  for (uint64_t i = 0; i < n; i++) wrB(d + i, v);
  return cv(d);
}
static Val n_fopen(std::vector<Val> &a, CallT &) {
  Str name = cstrC(a[0]), mode = cstrC(a[1]);
  FileEnt *f = findFile(name);
  OpenFile of; of.name = name; of.pos = 0; of.open = true; of.eof = false; of.rd = mode[0] == 'r' || mode.find('+') != Str::npos; of.wr = mode[0] != 'r' || mode.find('+') != Str::npos; of.append = mode[0] == 'a';
  if (mode[0] == 'r') { if (!f || !f->exists) return cv(0); }
  else { if (name.empty() || name.compare(0, 6, "nodir/") == 0) return cv(0); if (mode[0] == 'w' || !f || !f->exists) makeFile(name); }
  of.handle = newObj(8, K_EXT, false); cur->open.push_back(of); return cv(mkAddr(of.handle, 0));
}
static Val n_fclose(std::vector<Val> &a, CallT &) { OpenFile *f = handle(a[0]); f->open = false; if (f->handle > ID_STDERR || f->handle < ID_STDIN) cur->mem.set(f->handle, nullptr); return cv(0); }
static FileEnt *readable(OpenFile *of) { if (!of->rd) return nullptr; FileEnt *f = findFile(of->name); return f && f->exists ? f : nullptr; }
static Val n_getc(std::vector<Val> &a, CallT &) {
  OpenFile *of = handle(a[0]); FileEnt *f = readable(of);
  if (!f || of->pos >= fileSize(f)) { of->eof = true; return cv(0xffffffff); }
  Val b = fileByte(f, of->pos++); return b.e ? fromE(mkZext(b.e, 32)) : b;
}
static Val n_ungetc(std::vector<Val> &a, CallT &) { OpenFile *of = handle(a[1]); if (of->pos) of->pos--; return a[0]; }
static Val n_fgets(std::vector<Val> &a, CallT &) {
  uint64_t buf = concV(a[0]); int64_t n = (int32_t)concV(a[1]); OpenFile *of = handle(a[2]); FileEnt *f = readable(of);
  std::vector<Val> out; uint64_t p = of->pos, sz = f ? fileSize(f) : 0; bool eof = false;
  while ((int64_t)out.size() < n - 1) {
    if (p >= sz) { eof = true; break; }
    Val b = fileByte(f, p++); out.push_back(b);
    if (isEqB(b, '\n')) break;
  }
  of = handle(a[2]); of->pos = p; if (eof) of->eof = true;
  if (out.empty()) return cv(0);
  for (size_t i = 0; i < out.size(); i++) wrB(buf + i, out[i]);
  wrB(buf + out.size(), cv(0)); return cv(buf);
}
static Val n_fread(std::vector<Val> &a, CallT &) {
  uint64_t buf = concV(a[0]), sz = concV(a[1]), n = concV(a[2]); OpenFile *of = handle(a[3]); FileEnt *f = readable(of);
  uint64_t tot = sz * n, av = f && fileSize(f) > of->pos ? fileSize(f) - of->pos : 0; if (av < tot) of->eof = true;
  uint64_t m = std::min(tot, av);
  for (uint64_t i = 0; i < m; i++) wrB(buf + i, fileByte(f, of->pos + i));
  of->pos += m; return cv(sz ? m / sz : 0);
}
static Val n_fwrite(std::vector<Val> &a, CallT &) {
  uint64_t buf = concV(a[0]), tot = concV(a[1]) * concV(a[2]); OpenFile *of = handle(a[3]); std::vector<Val> b; for (uint64_t i = 0; i < tot; i++) b.push_back(rdB(buf + i)); outBytes(of, b); return a[2];
}
static Val n_fputs(std::vector<Val> &a, CallT &) { auto b = cstr(a[0]); outBytes(handle(a[1]), b); return cv(1); }
static Val n_fputc(std::vector<Val> &a, CallT &) { Val v = a[0]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.v &= 255; outBytes(handle(a[1]), {v}); return v.e ? fromE(mkZext(v.e, 32)) : v; }
static Val n_putchar(std::vector<Val> &a, CallT &) { Val v = a[0]; if (v.e) v = fromE(mkExtract(v.e, 0, 8)); else v.v &= 255; outBytes(stdHandle(ID_STDOUT), {v}); return v.e ? fromE(mkZext(v.e, 32)) : v; }
static Val n_puts(std::vector<Val> &a, CallT &) { auto b = cstr(a[0]); b.push_back(cv('\n')); outBytes(stdHandle(ID_STDOUT), b); return cv(1); }
static Val n_printf(std::vector<Val> &a, CallT &) { auto b = format(cstr(a[0]), a, 1); outBytes(stdHandle(ID_STDOUT), b); return cv(b.size()); }
static Val n_fprintf(std::vector<Val> &a, CallT &) { auto b = format(cstr(a[1]), a, 2); outBytes(handle(a[0]), b); return cv(b.size()); }
static Val n_sprintf(std::vector<Val> &a, CallT &) { auto b = format(cstr(a[1]), a, 2); uint64_t p = concV(a[0]); for (size_t i = 0; i < b.size(); i++) wrB(p + i, b[i]); wrB(p + b.size(), cv(0)); return cv(b.size()); }
static Val n_snprintf(std::vector<Val> &a, CallT &) { auto b = format(cstr(a[2]), a, 3); uint64_t p = concV(a[0]), n = concV(a[1]); for (size_t i = 0; i < b.size() && i + 1 < n; i++) wrB(p + i, b[i]); if (n) wrB(p + std::min<uint64_t>(b.size(), n - 1), cv(0)); return cv(b.size()); }
static Val n_sscanf(std::vector<Val> &a, CallT &) {
  uint64_t s = concV(a[0]); Str fmt = cstrC(a[1]);
  Src g = [&](uint64_t i, Val &b) { b = rdB(s + i); if (b.e) { if (decide(mkEq(b.e, mkConst(0, 8)))) return false; return true; } return b.v != 0; };
  uint64_t pos = 0; size_t ai = 2; int cnt = 0; Val b; bool any = false;
  std::vector<std::tuple<uint64_t, Val, unsigned>> wr;
  for (size_t i = 0; i < fmt.size(); i++) {
    char c = fmt[i];
    if (isspace(c)) { while (g(pos, b) && !(b.e && g_padBase.count(b.e)) && isSp(b)) pos++; continue; }
    if (c != '%') { if (!g(pos, b)) { if (!any && cnt == 0) cnt = -1; goto done; } if (!isEqB(b, (uint8_t)c)) goto done; pos++; continue; }
    i++; bool sup = false; if (fmt[i] == '*') { sup = true; i++; }
    int width = 0; while (isdigit(fmt[i])) width = width * 10 + fmt[i++] - '0';
    int lng = 0; while (fmt[i] == 'l') { lng++; i++; }
    c = fmt[i];
    if (c == 'n') { wr.push_back({concV(a[ai++]), cv(pos), lng ? 64 : 32}); continue; }
    if (c != 'c') { while (g(pos, b) && !(b.e && g_padBase.count(b.e)) && isSp(b)) pos++; }
    if (!g(pos, b)) { if (cnt == 0) cnt = -1; goto done; }
    Val v; uint64_t lim = pos + width; Src gg = g; if (width) gg = [&, lim](uint64_t k, Val &q) { return k < lim && g(k, q); };
    if (c == 'd' || c == 'u' || c == 'i') { if (!scanLong(gg, pos, v, false)) goto done; if (!sup) { if (!lng) { if (v.e) v = fromE(mkExtract(v.e, 0, 32)); else v.v &= 0xffffffff; } wr.push_back({concV(a[ai++]), v, lng ? 64u : 32u}); cnt++; } }
    else if (c == 'x' || c == 'X') { if (!scanHex(gg, pos, v)) goto done; if (!sup) { wr.push_back({concV(a[ai++]), v.e && lng ? fromE(mkZext(v.e, 64)) : v, lng ? 64u : 32u}); cnt++; } }
    else if (c == 's') { uint64_t d = sup ? 0 : concV(a[ai++]); uint64_t k = 0; while (gg(pos, b) && !isSp(b)) { if (!sup) wr.push_back({d + k++, b, 8}); pos++; } if (!sup) { wr.push_back({d + k, cv(0), 8}); cnt++; } }
    else if (c == 'c') { if (!sup) { wr.push_back({concV(a[ai++]), b, 8}); cnt++; } pos++; }
    else fatal(Str("scanf conversion ") + c);
    any = true;
  }
done:
  for (auto &q : wr) storeMem(cv(std::get<0>(q)), std::get<1>(q), std::get<2>(q));
  return cv((uint32_t)cnt);
}
static Val n_strtol(std::vector<Val> &a, CallT &) {
  uint64_t s = concV(a[0]), endp = concV(a[1]), base = concV(a[2]); if (base != 10 && base != 0) fatal("strtol base");
  Src g = [&](uint64_t i, Val &b) { b = rdB(s + i); if (b.e) return !decide(mkEq(b.e, mkConst(0, 8))); return b.v != 0; };
  uint64_t pos = 0; Val v = cv(0); bool ok = scanLong(g, pos, v, true); if (!ok) { v = cv(0); pos = 0; }
  if (endp) storeMem(cv(endp), cv(s + pos), 64);
  return v;
}
static Val n_atoi(std::vector<Val> &a, CallT &ct) { std::vector<Val> b = {a[0], cv(0), cv(10)}; Val v = n_strtol(b, ct); if (v.e) return fromE(mkExtract(v.e, 0, 32)); return cv((uint32_t)v.v); }
static Val n_atol(std::vector<Val> &a, CallT &ct) { std::vector<Val> b = {a[0], cv(0), cv(10)}; return n_strtol(b, ct); }
static Val n_rewind(std::vector<Val> &a, CallT &) { OpenFile *f = handle(a[0]); f->pos = 0; f->eof = false; return cv(0); }
static Val n_fseek(std::vector<Val> &a, CallT &) { OpenFile *f = handle(a[0]); int64_t o = concV(a[1]); int w = concV(a[2]); FileEnt *fe = findFile(f->name); int64_t b = w == 0 ? 0 : w == 1 ? f->pos : (fe && fe->exists ? fileSize(fe) : 0); if (b + o < 0) return cv(0xffffffff); f->pos = b + o; f->eof = false; return cv(0); }
static Val n_ftell(std::vector<Val> &a, CallT &) { return cv(handle(a[0])->pos); }
static Val n_feof(std::vector<Val> &a, CallT &) { return cv(handle(a[0])->eof); }
static Val n_zero(std::vector<Val> &a, CallT &) { return cv(0); }
static Val n_stat(std::vector<Val> &a, CallT &) { FileEnt *f = findFile(cstrC(a[0])); return cv(f && f->exists ? 0 : 0xffffffff); }
static Val n_unlink(std::vector<Val> &a, CallT &) { FileEnt *f = findFile(cstrC(a[0])); if (!f || !f->exists) return cv(0xffffffff); cur->mem.set(f->obj, nullptr); findFile(f->name)->exists = false; return cv(0); }
static Val n_getpid(std::vector<Val> &, CallT &) { return cv(4242); }
static Val n_exit(std::vector<Val> &a, CallT &) { Val v = a[0]; unwindTo(1, v); return cv(0); }
static Val n_abort(std::vector<Val> &, CallT &) { violation("abort", "abort() called"); return cv(0); }
static Val n_assert_fail(std::vector<Val> &a, CallT &) { violation("abort", "assertion failed in the code: " + cstrC(a[0])); return cv(0); }
static Val n_sqrt(std::vector<Val> &a, CallT &) { if (g_real && a[0].e) return fromE(mkFop(4, a[0].e, nullptr)); uint64_t d = concV(a[0]); double x; memcpy(&x, &d, 8); x = sqrt(x); memcpy(&d, &x, 8); return cv(d); }
static Val n_fabs(std::vector<Val> &a, CallT &) { if (g_real && a[0].e) return decide(mkFcmp(0, a[0].e, mkConst(0, 64))) ? fromE(mkFop(1, mkConst(0, 64), a[0].e)) : a[0]; uint64_t d = concV(a[0]); return cv(d & ~(1ull << 63)); }
static Val n_floor(std::vector<Val> &a, CallT &ct) { uint64_t d = concV(a[0]); double x; memcpy(&x, &d, 8); x = ct.name == "floor" ? floor(x) : ct.name == "ceil" ? ceil(x) : ct.name == "round" ? round(x) : rint(x); memcpy(&d, &x, 8); return cv(d); }
static Val n_ctype_b(std::vector<Val> &, CallT &) { return cv(mkAddr(ID_CTYPE, 0)); }
static Val n_tolower_loc(std::vector<Val> &, CallT &) { return cv(mkAddr(ID_TOLOWER, 0)); }
static Val n_toupper_loc(std::vector<Val> &, CallT &) { return cv(mkAddr(ID_TOUPPER, 0)); }
static Val n_errno(std::vector<Val> &, CallT &) { return cv(mkAddr(ID_ERRNO, 0)); }

// utf8proc property tables dumped from the real library
static std::vector<uint64_t> U_st, U_prop, L_st, L_delta, C_st, C_cat, T_st, T_delta;
static Val pwv(const std::vector<uint64_t> &st, const std::vector<uint64_t> &vs, Val x, unsigned xw, unsigned w) { return fromE(mkPW(st, vs, toE(x, xw), w)); }
static Val n_u8prop(std::vector<Val> &a, CallT &) { return pwv(U_st, U_prop, a[0], 32, 64); }
static Val n_u8cat(std::vector<Val> &a, CallT &) { return pwv(C_st, C_cat, a[0], 32, 32); }
static Val n_u8lower(std::vector<Val> &a, CallT &) { E x = toE(a[0], 32); return fromE(mkBin(O_ADD, x, mkPW(L_st, L_delta, x, 32))); }
static Val n_u8upper(std::vector<Val> &a, CallT &) { E x = toE(a[0], 32); return fromE(mkBin(O_ADD, x, mkPW(T_st, T_delta, x, 32))); }
static Val n_u8errmsg(std::vector<Val> &a, CallT &) { const char *m = utf8proc_errmsg((long)concV(a[0])); std::vector<Val> b; for (const char *p = m; *p; p++) b.push_back(cv((uint8_t)*p)); b.push_back(cv(0)); return cv(allocBytes(b)); }
static Val n_sym_assume(std::vector<Val> &a, CallT &);
// characters whose encoding was produced by utf8proc_encode_char, by their last byte
struct EncRec { E x; std::vector<E> by; };
static std::unordered_map<E, std::vector<EncRec>> g_encBase;
static Val n_encnote(std::vector<Val> &a, CallT &) {
  if (!a[0].e) return cv(0);
  uint64_t n = concV(a[2]), p = concV(a[1]); EncRec r; r.x = toE(a[0], 32); for (uint64_t i = 0; i < n; i++) r.by.push_back(toE(loadMem(cv(p + i), 8), 8));
  auto &v = g_encBase[r.by.back()]; for (auto &q : v) if (q.x == r.x && q.by == r.by) return cv(0);
  v.push_back(r); return cv(0);
}
// NFC quick check data: 256 + combining class, +512 when the character may change under NFC
static std::vector<uint64_t> N_st, N_v;
static void initNfc() {
  if (!N_st.empty()) return;
  std::vector<bool> bad(0x110000, false);
  for (uint32_t c = 0x1161; c <= 0x1175; c++) bad[c] = true; for (uint32_t c = 0x11A8; c <= 0x11C2; c++) bad[c] = true;
  for (uint32_t c = 1; c < 0x110000; c++) {
    if (c >= 0xD800 && c < 0xE000) { bad[c] = true; continue; }
    uint8_t b[5]; auto n = utf8proc_encode_char(c, b); b[n] = 0; uint8_t *r = utf8proc_NFC(b), *d = utf8proc_NFD(b);
    if (!r || strcmp((char *)r, (char *)b)) bad[c] = true;
    if (d && strcmp((char *)d, (char *)b)) { utf8proc_int32_t q; size_t i = 0, l = strlen((char *)d), k = 0; bool first = true; while (i < l) { auto m = utf8proc_iterate(d + i, l - i, &q); if (m <= 0) break; if (!first) bad[q] = true; first = false; i += m; k++; } }
    free(r); free(d);
  }
  for (uint32_t c = 0; c < 0x110000; c++) { uint64_t v = (bad[c] ? 512 : 0) + utf8proc_get_property(c)->combining_class; if (N_v.empty() || N_v.back() != v) { N_st.push_back(c); N_v.push_back(v); } }
}
static Val n_u8nfc(std::vector<Val> &a, CallT &ct) {
  auto b = cstr(a[0]); bool sym = false;
  for (auto &x : b) if (x.e) sym = true;
  if (sym) {
    // decode into code points, recognising encoded ones
    initNfc(); std::vector<E> cp; bool ok = true; size_t i = 0;
    while (i < b.size() && ok) {
      unsigned n = 0; E x = nullptr;
      for (unsigned l = 1; l <= 4 && i + l <= b.size() && !n; l++) { if (!b[i + l - 1].e) continue; auto it = g_encBase.find(b[i + l - 1].e); if (it == g_encBase.end()) continue;
        for (auto &q : it->second) { bool m = q.by.size() == l; for (unsigned k = 0; k < l && m; k++) m = q.by[k] == toE(b[i + k], 8); if (m) { n = l; x = q.x; break; } } }
      if (!n) { Val v = b[i]; bool as = v.e ? decide(mkUlt(v.e, mkConst(0x80, 8))) : v.v < 0x80; if (as) { n = 1; x = mkZext(toE(v, 8), 32); }
        else if (!v.e) { unsigned l = v.v >= 0xf0 ? 4 : v.v >= 0xe0 ? 3 : 2; uint32_t c = v.v & (0x7f >> l); for (unsigned k = 1; k < l && ok; k++) { if (i + k >= b.size() || b[i + k].e) ok = false; else c = c << 6 | (b[i + k].v & 0x3f); } n = l; x = mkConst(c, 32); }
        else ok = false; }
      if (ok) { cp.push_back(x); i += n; }
    }
    if (ok) {
      E fine = mkConst(1, 1), prev = mkConst(0, 32);
      for (E x : cp) { E q = isC(x) ? mkConst(N_v[std::upper_bound(N_st.begin(), N_st.end(), x->c) - N_st.begin() - 1], 32) : mkPW(N_st, N_v, x, 32);
        fine = mkBin(O_AND, fine, mkBin(O_AND, mkUlt(q, mkConst(512, 32)), mkBin(O_OR, mkEq(q, mkConst(0, 32)), mkUle(prev, q)))); prev = q; }
      if (g_params.count("nfc") && g_params["nfc"] == 0) { Val c = fromE(fine); std::vector<Val> as{c}; n_sym_assume(as, ct); b.push_back(cv(0)); return cv(allocBytes(b)); }
      if (decide(fine)) { b.push_back(cv(0)); return cv(allocBytes(b)); }
    }
  }
  if (sym && g_traceQ) { fprintf(stderr, "NFC concretised:"); for (auto &x : b) fprintf(stderr, " %s", x.e ? exprStr(x.e).c_str() : std::to_string(x.v).c_str()); fprintf(stderr, "\n"); }
  Str s; for (auto &x : b) s += (char)concV(x);
  uint8_t *r = ct.name == "utf8proc_NFD" ? utf8proc_NFD((const uint8_t *)s.c_str()) : ct.name == "utf8proc_NFKC" ? utf8proc_NFKC((const uint8_t *)s.c_str()) : utf8proc_NFC((const uint8_t *)s.c_str());
  if (!r) return cv(0);
  std::vector<Val> o; for (uint8_t *p = r; *p; p++) o.push_back(cv(*p)); o.push_back(cv(0)); free(r);
  return cv(allocBytes(o));
}

// ---- harness API
static Str occName(const Str &n) { int k = cur->occ[n]++; return n + "#" + std::to_string(k); }
static Val symVar(const Str &name, unsigned w, uint64_t lo, uint64_t hi) {
  Str nm = occName(name);
  E v = mkVar(nm, w, lo, hi);
  cur->syms.push_back({nm, v});
  return fromE(v);
}
static Val n_sym_u8(std::vector<Val> &a, CallT &) { return symVar(cstrC(a[0]), 8, 0, 255); }
static Val n_sym_u32(std::vector<Val> &a, CallT &) { return symVar(cstrC(a[0]), 32, 0, 0xffffffff); }
static Val n_sym_u64(std::vector<Val> &a, CallT &) { return symVar(cstrC(a[0]), 64, 0, ~0ull); }
static Val n_sym_range(std::vector<Val> &a, CallT &) {
  uint64_t lo = concV(a[1]), hi = concV(a[2]); unsigned w = 1; while (w < 64 && (hi >> w)) w++; if (w < 2) w = 2;
  Val v = symVar(cstrC(a[0]), w, lo, hi); return v.e ? fromE(mkZext(v.e, 64)) : v;
}
static Val n_sym_assume(std::vector<Val> &a, CallT &) {
  Val v = a[0]; if (!v.e) { if (!v.v) { S->infeasible++; throw PathEnd{1}; } return cv(0); }
  E c = simpDom(cur, v.e->w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w))));
  if (isC(c)) { if (!c->c) { S->infeasible++; throw PathEnd{1}; } return cv(0); }
  auto it = cur->known.find(c->id); if (it != cur->known.end()) { if (!it->second) { S->infeasible++; throw PathEnd{1}; } return cv(0); }
  evalNewModel();
  if (evalExpr(c, cur->model)) { constrain(cur, c); return cv(0); }
  Model m; if (!checkSat(cur, c, &m)) { S->infeasible++; throw PathEnd{1}; }
  cur->model = m; constrain(cur, c); return cv(0);
}
static Val n_sym_assert(std::vector<Val> &a, CallT &) {
  Val v = a[0]; S->asserts++;
  if (!v.e) { if (!v.v) { violation("assert", cstrC(a[1])); throw PathEnd{2}; } return cv(0); }
  E c = simpDom(cur, v.e->w == 1 ? v.e : mkNot(mkEq(v.e, mkConst(0, v.e->w))));
  if (isC(c)) { if (!c->c) { violation("assert", cstrC(a[1])); throw PathEnd{2}; } return cv(0); }
  auto it = cur->known.find(c->id); if (it != cur->known.end() && it->second) return cv(0);
  S->assertq++;
  evalNewModel();
  if (!evalExpr(c, cur->model)) { violation("assert", cstrC(a[1])); Model m; if (!checkSat(cur, c, &m)) throw PathEnd{2}; cur->model = m; constrain(cur, c); return cv(0); }
  Model m;
  if (checkSat(cur, mkNot(c), &m)) { violation("assert", cstrC(a[1]), &m); constrain(cur, c); }
  else learn(cur, c, true);
  return cv(0);
}
static Val n_sym_ite(std::vector<Val> &a, CallT &) { E c = toE(a[0], 32); if (c->w != 1) c = mkNot(mkEq(c, mkConst(0, c->w))); return fromE(mkIte(c, toE(a[1], 64), toE(a[2], 64))); }
static Val n_sym_reach(std::vector<Val> &a, CallT &) { Str l = cstrC(a[0]); for (size_t i = 0; i < g_labels.size(); i++) if (g_labels[i] == l) { S->lab[i]++; return cv(0); } fatal("unknown label " + l); }
static Val n_sym_file(std::vector<Val> &a, CallT &) { Str n = cstrC(a[0]); uint64_t p = concV(a[1]), len = concV(a[2]); std::vector<Val> b; for (uint64_t i = 0; i < len; i++) b.push_back(rdB(p + i)); FileEnt *f = makeFile(n); fileAppend(f, 0, b); return cv(0); }
static Val n_sym_fsize(std::vector<Val> &a, CallT &) { FileEnt *f = findFile(cstrC(a[0])); return cv(f && f->exists ? fileSize(f) : ~0ull); }
static Val n_sym_fbyte(std::vector<Val> &a, CallT &) { FileEnt *f = findFile(cstrC(a[0])); uint64_t o = concV(a[1]); if (!f || !f->exists || o >= fileSize(f)) return cv(0xffffffff); Val b = fileByte(f, o); return b.e ? fromE(mkZext(b.e, 32)) : b; }
static Val n_sym_fread(std::vector<Val> &a, CallT &) { // name, off, buf, max -> n ; 
  FileEnt *f = findFile(cstrC(a[0])); uint64_t o = concV(a[1]), p = concV(a[2]), mx = concV(a[3]); if (!f || !f->exists) return cv(~0ull);
  uint64_t sz = fileSize(f), n = o >= sz ? 0 : std::min(mx, sz - o); for (uint64_t i = 0; i < n; i++) wrB(p + i, fileByte(f, o + i)); return cv(n);
}
static Val n_sym_num(std::vector<Val> &a, CallT &) { // const char *p, long *val -> chars consumed (0 if no number)
  uint64_t s = concV(a[0]); Src g = [&](uint64_t i, Val &b) { b = rdB(s + i); if (b.e) return !decide(mkEq(b.e, mkConst(0, 8))); return b.v != 0; };
  uint64_t pos = 0; Val v; Val b; while (g(pos, b) && !(b.e && g_padBase.count(b.e)) && isEqB(b, ' ')) pos++;
  { unsigned fl; if (g(pos, b) && padField(g, pos, b, v, fl)) { storeMem(a[1], v, 64); return cv(pos + fl); } }
  while (g(pos, b) && isEqB(b, ' ')) pos++;
  if (!scanLong(g, pos, v, false)) return cv(0);
  storeMem(a[1], v, 64); return cv(pos);
}
static Val n_sym_fixed(std::vector<Val> &a, CallT &) { // const char *p, width, decimals, long *val -> 1 if a number of that width with that many decimals, blanks before it
  uint64_t p = concV(a[0]); unsigned w = concV(a[1]), prec = concV(a[2]); std::vector<Val> cs; for (unsigned i = 0; i < w; i++) cs.push_back(rdB(p + i));
  E l = cs[w - 1].e;
  if (l && l->op == O_ADD && l->a->op == O_DIGIT && isC(l->b) && l->b->c == '0') {
    E v = l->a->a; unsigned nd = l->a->c >> 8;
    if (nd + 1 <= w && nd > prec) { std::vector<Val> q = padCells(v, nd, prec + 1, prec), full; pad(full, q, w, false, ' '); bool ok = true; for (unsigned i = 0; i < w; i++) if (cs[i].e != full[i].e || (!cs[i].e && cs[i].v != full[i].v)) ok = false; if (ok) { storeMem(a[3], fromE(v), 64); return cv(1); } }
  }
  std::vector<Val> ds; unsigned i = 0; while (i < w && isEqB(cs[i], ' ')) i++;
  for (; i < w; i++) { if (i == w - 1 - prec) { if (!isEqB(cs[i], '.')) return cv(0); continue; } if (!isIn(cs[i], '0', '9')) return cv(0); ds.push_back(cs[i]); }
  if (ds.size() < prec + 1) return cv(0);
  storeMem(a[3], sumDigits(ds), 64); return cv(1);
}
static Val n_sym_exec(std::vector<Val> &a, CallT &ct) { // tool, argc, argv
  Str tool = cstrC(a[0]); uint64_t n = concV(a[1]), av = concV(a[2]); std::vector<std::vector<Val>> argv;
  for (uint64_t i = 0; i < n; i++) argv.push_back(cstr(loadMem(cv(av + 8 * i), 64)));
  startExec(tool, argv, pendingDest); return cv(0);
}
static Val n_sym_catch(std::vector<Val> &a, CallT &ct);
static Val n_sym_digits(std::vector<Val> &a, CallT &) { // buf, v (assumed < 10^nd), nd: exactly nd decimal digits
  uint64_t p = concV(a[0]), nd = concV(a[2]);
  for (uint64_t i = 0; i < nd; i++) {
    unsigned k = nd - 1 - i; Val b;
    if (!a[1].e) b = cv('0' + a[1].v / p10(k) % 10);
    else { if (!i && a[1].e->hi >= p10(nd) && !decide(mkUlt(a[1].e, mkConst(p10(nd), 64)))) fatal("sym_digits: value too large"); b = fromE(mkBin(O_ADD, mkDigit(a[1].e, k, nd), mkConst('0', 8))); }
    wrB(p + i, b);
  }
  return cv(0);
}
static Val n_sym_conc(std::vector<Val> &a, CallT &) { return cv(concV(a[0])); }
static Val n_sym_note(std::vector<Val> &a, CallT &) { if (g_verbose) { Str s = cstrC(a[0]); fprintf(stderr, "note: %s = %s\n", s.c_str(), a[1].e ? exprStr(a[1].e, 6).c_str() : std::to_string((long long)a[1].v).c_str()); } return cv(0); }
static Val n_sym_param(std::vector<Val> &a, CallT &) { Str n = cstrC(a[0]); auto it = g_params.find(n); return cv(it == g_params.end() ? concV(a[1]) : (uint64_t)it->second); }
static Val n_bcmp_guard(std::vector<Val> &, CallT &) { fatal("unexpected native"); }

static void initNatives() {
  NAT = {
    {"calloc", n_calloc}, {"malloc", n_malloc}, {"free", n_free}, {"realloc", n_realloc},
    {"memcpy", n_memcpy}, {"memmove", n_memcpy}, {"memset", n_memset},
    {"fopen", n_fopen}, {"fclose", n_fclose}, {"getc", n_getc}, {"fgetc", n_getc}, {"_IO_getc", n_getc}, {"ungetc", n_ungetc}, {"fgets", n_fgets}, {"fread", n_fread}, {"fwrite", n_fwrite},
    {"fputs", n_fputs}, {"fputc", n_fputc}, {"putc", n_fputc}, {"_IO_putc", n_fputc}, {"putchar", n_putchar}, {"puts", n_puts}, {"printf", n_printf}, {"fprintf", n_fprintf}, {"sprintf", n_sprintf}, {"snprintf", n_snprintf},
    {"sscanf", n_sscanf}, {"__isoc99_sscanf", n_sscanf}, {"strtol", n_strtol}, {"strtoll", n_strtol}, {"strtoul", n_strtol}, {"__isoc23_strtol", n_strtol}, {"__isoc23_sscanf", n_sscanf}, {"atoll", n_atol}, {"atoi", n_atoi}, {"atol", n_atol},
    {"rewind", n_rewind}, {"fseek", n_fseek}, {"ftell", n_ftell}, {"feof", n_feof}, {"ferror", n_zero}, {"fflush", n_zero}, {"signal", n_zero}, {"__sysv_signal", n_zero}, {"setbuf", n_zero},
    {"stat", n_stat}, {"unlink", n_unlink}, {"remove", n_unlink}, {"getpid", n_getpid}, {"exit", n_exit}, {"_exit", n_exit}, {"abort", n_abort}, {"__assert_fail", n_assert_fail},
    {"sqrt", n_sqrt}, {"fabs", n_fabs}, {"floor", n_floor}, {"ceil", n_floor}, {"round", n_floor}, {"rint", n_floor}, {"__ctype_b_loc", n_ctype_b}, {"__ctype_tolower_loc", n_tolower_loc}, {"__ctype_toupper_loc", n_toupper_loc}, {"__errno_location", n_errno},
    {"utf8proc_get_property", n_u8prop}, {"utf8proc_category", n_u8cat}, {"utf8proc_tolower", n_u8lower}, {"utf8proc_toupper", n_u8upper}, {"utf8proc_errmsg", n_u8errmsg}, {"utf8proc_NFC", n_u8nfc}, {"sym_encnote", n_encnote}, {"utf8proc_NFD", n_u8nfc}, {"utf8proc_NFKC", n_u8nfc},
    {"sym_u8", n_sym_u8}, {"sym_u32", n_sym_u32}, {"sym_u64", n_sym_u64}, {"sym_range", n_sym_range}, {"sym_assume", n_sym_assume}, {"sym_assert", n_sym_assert}, {"sym_ite", n_sym_ite}, {"sym_reach", n_sym_reach},
    {"sym_file", n_sym_file}, {"sym_fsize", n_sym_fsize}, {"sym_fbyte", n_sym_fbyte}, {"sym_fread", n_sym_fread}, {"sym_num", n_sym_num}, {"sym_fixed", n_sym_fixed}, {"sym_execv", n_sym_exec}, {"sym_catch", n_sym_catch}, {"sym_conc", n_sym_conc}, {"sym_digits", n_sym_digits}, {"sym_note", n_sym_note}, {"sym_param", n_sym_param},
  };
}
static std::vector<Native> natById; static std::map<Str, int> natIds;
static int nativeId(const Str &n) {
  auto it = natIds.find(n); if (it != natIds.end()) return it->second;
  auto q = NAT.find(n); int id = -1;
  if (q != NAT.end()) { id = natById.size(); natById.push_back(q->second); }
  natIds[n] = id; return id;
}

// ------------------------------------------------------------------ decoding
static unsigned tw(Type *t) {
  if (t->isIntegerTy()) return t->getIntegerBitWidth();
  if (t->isPointerTy()) return 64;
  if (t->isDoubleTy()) return 64;
  if (t->isFloatTy()) return 32;
  if (t->isVoidTy()) return 0;
  Str s; raw_string_ostream os(s); t->print(os); throw std::runtime_error("unsupported type " + os.str());
}
static Val constVal(const Constant *c, int mod);
static uint64_t gaddr(const GlobalValue *g, int mod);
static int constIdx(Val v) { static std::map<uint64_t, int> m; auto it = m.find(v.v); if (it != m.end()) return it->second; g_consts.push_back(v); int i = ~(int)(g_consts.size() - 1); m[v.v] = i; return i; }

static Val constVal(const Constant *c, int mod) {
  if (auto ci = dyn_cast<ConstantInt>(c)) return cv(ci->getValue().getZExtValue());
  if (auto cf = dyn_cast<ConstantFP>(c)) return cv(cf->getValueAPF().bitcastToAPInt().getZExtValue());
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return cv(0);
  if (auto g = dyn_cast<GlobalValue>(c)) return cv(gaddr(g, mod));
  if (auto ce = dyn_cast<ConstantExpr>(c)) {
    if (ce->getOpcode() == Instruction::GetElementPtr) {
      APInt off(64, 0); auto *gep = cast<GEPOperator>(ce);
      if (!gep->accumulateConstantOffset(*DL, off)) throw std::runtime_error("const gep");
      return cv(constVal(cast<Constant>(gep->getPointerOperand()), mod).v + off.getZExtValue());
    }
    if (ce->isCast()) { uint64_t v = constVal(ce->getOperand(0), mod).v; unsigned w = tw(ce->getType()); if (ce->getOpcode() == Instruction::SExt) v = sextw(v, tw(ce->getOperand(0)->getType())); return cv(v & maskw(w)); }
    if (ce->getOpcode() == Instruction::Sub || ce->getOpcode() == Instruction::Add) { uint64_t a = constVal(ce->getOperand(0), mod).v, b = constVal(ce->getOperand(1), mod).v; return cv((ce->getOpcode() == Instruction::Sub ? a - b : a + b) & maskw(tw(ce->getType()))); }
  }
  Str s; raw_string_ostream os(s); c->print(os); throw std::runtime_error("unsupported constant " + os.str());
}
static uint32_t extFnObj(const Str &n) {
  auto it = g_extFnId.find(n); if (it != g_extFnId.end()) return it->second;
  uint32_t id = g_nextGlobal++; g_extFnId[n] = id; g_extFnById[id] = n; g_initMem->set(id, Obj::make(1, K_FUNC, false)); return id;
}
static uint64_t gaddr(const GlobalValue *g, int mod) {
  ModInfo *M = g_mods[mod];
  if (auto f = dyn_cast<Function>(g)) {
    auto it = M->fns.find(f->getName().str());
    if (it != M->fns.end()) return mkAddr(g_fnObj[f], 0);
    return mkAddr(extFnObj(f->getName().str()), 0);
  }
  if (auto v = dyn_cast<GlobalVariable>(g)) return mkAddr(M->gids.at(v), 0);
  if (auto al = dyn_cast<GlobalAlias>(g)) return constVal(al->getAliasee(), mod).v;
  throw std::runtime_error("gaddr");
}
static void initData(Obj *o, const Constant *c, uint64_t off, int mod) {
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  auto put = [&](uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) { uint8_t b = v >> (8 * i); if (!b && !o->pg[(off + i) / PAGE]) continue; o->pageW((off + i) / PAGE)->d[(off + i) % PAGE] = b; } };
  if (auto cds = dyn_cast<ConstantDataSequential>(c)) {
    unsigned es = DL->getTypeAllocSize(cds->getElementType());
    for (unsigned i = 0; i < cds->getNumElements(); i++) { Constant *e = cds->getElementAsConstant(i); uint64_t o0 = off; off = o0 + (uint64_t)i * es; put(constVal(e, mod).v, es); off = o0; }
    return;
  }
  if (auto cs = dyn_cast<ConstantStruct>(c)) { const StructLayout *L = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initData(o, cs->getOperand(i), off + L->getElementOffset(i), mod); return; }
  if (auto ca = dyn_cast<ConstantArray>(c)) { uint64_t es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initData(o, ca->getOperand(i), off + es * i, mod); return; }
  put(constVal(c, mod).v, DL->getTypeStoreSize(c->getType()));
}

static Str intrinsicBase(const Str &n);
static void decode(DFunc *df) {
  if (df->decoded) return;
  df->decoded = true;
  const Function &F = *df->F; int mod = df->module;
  std::unordered_map<const Value *, int> slot; uint32_t ns = 0;
  for (auto &A : F.args()) { slot[&A] = ns++; df->argw.push_back(tw(A.getType())); }
  for (auto &B : F) for (auto &I : B) if (!I.getType()->isVoidTy()) slot[&I] = ns++;
  df->nslots = ns;
  auto opnd = [&](const Value *v) -> int { if (auto c = dyn_cast<Constant>(v)) return constIdx(constVal(c, mod)); if (isa<MetadataAsValue>(v)) return constIdx(cv(0)); return slot.at(v); };
  // block start pcs: phis emit nothing
  std::unordered_map<const BasicBlock *, uint32_t> start; uint32_t pc = 0;
  auto skip = [&](const Instruction &I) { if (isa<PHINode>(I)) return true; if (auto ii = dyn_cast<IntrinsicInst>(&I)) { auto id = ii->getIntrinsicID(); return id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::dbg_value || id == Intrinsic::dbg_declare || id == Intrinsic::dbg_label || id == Intrinsic::assume || id == Intrinsic::experimental_noalias_scope_decl; } return false; };
  for (auto &B : F) { start[&B] = pc; for (auto &I : B) if (!skip(I)) pc++; }
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) -> int {
    Edge e; e.target = start[to];
    for (auto &P : to->phis()) e.mv.push_back({slot[&P], opnd(P.getIncomingValueForBlock(from))});
    df->edges.push_back(e); return df->edges.size() - 1;
  };
  for (auto &B : F) for (auto &I : B) {
    if (skip(I)) continue;
    DInst d; d.src = &I; d.w = I.getType()->isVoidTy() || I.getType()->isAggregateType() ? 0 : tw(I.getType()); if (!I.getType()->isVoidTy()) d.dest = slot[&I];
    if (auto bo = dyn_cast<BinaryOperator>(&I)) {
      d.a = opnd(bo->getOperand(0)); d.b = opnd(bo->getOperand(1));
      if (bo->getType()->isFloatingPointTy()) { d.op = I_FBIN; d.sub = bo->getOpcode(); }
      else {
        d.op = I_BIN;
        switch (bo->getOpcode()) {
        case Instruction::Add: d.sub = O_ADD; break; case Instruction::Sub: d.sub = O_SUB; break; case Instruction::Mul: d.sub = O_MUL; break;
        case Instruction::UDiv: d.sub = O_UDIV; break; case Instruction::SDiv: d.sub = O_SDIV; break; case Instruction::URem: d.sub = O_UREM; break; case Instruction::SRem: d.sub = O_SREM; break;
        case Instruction::And: d.sub = O_AND; break; case Instruction::Or: d.sub = O_OR; break; case Instruction::Xor: d.sub = O_XOR; break;
        case Instruction::Shl: d.sub = O_SHL; break; case Instruction::LShr: d.sub = O_LSHR; break; case Instruction::AShr: d.sub = O_ASHR; break;
        default: d.op = I_UNSUP;
        }
      }
    } else if (auto ic = dyn_cast<ICmpInst>(&I)) {
      d.op = I_CMP; d.w2 = tw(ic->getOperand(0)->getType()); d.a = opnd(ic->getOperand(0)); d.b = opnd(ic->getOperand(1)); d.sub = ic->getPredicate();
    } else if (auto l = dyn_cast<LoadInst>(&I)) { d.op = I_LOAD; d.a = opnd(l->getPointerOperand()); }
    else if (auto s = dyn_cast<StoreInst>(&I)) { d.op = I_STORE; d.a = opnd(s->getPointerOperand()); d.b = opnd(s->getValueOperand()); d.w = tw(s->getValueOperand()->getType()); }
    else if (auto g = dyn_cast<GetElementPtrInst>(&I)) {
      d.op = I_GEP; d.a = opnd(g->getPointerOperand()); std::vector<GepIdx> ix; int64_t imm = 0;
      for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
        const Value *v = gi.getOperand();
        if (StructType *st = gi.getStructTypeOrNull()) imm += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue());
        else { int64_t sz = DL->getTypeAllocSize(gi.getIndexedType()); if (auto c = dyn_cast<ConstantInt>(v)) imm += c->getSExtValue() * sz; else ix.push_back({opnd(v), (uint8_t)tw(v->getType()), sz}); }
      }
      d.imm = imm; d.ext = df->geps.size(); df->geps.push_back(ix);
    } else if (auto br = dyn_cast<BranchInst>(&I)) {
      if (br->isUnconditional()) { d.op = I_BR; d.b = edge(&B, br->getSuccessor(0)); }
      else { d.op = I_CBR; d.a = opnd(br->getCondition()); d.b = edge(&B, br->getSuccessor(0)); d.c = edge(&B, br->getSuccessor(1)); }
    } else if (auto sw = dyn_cast<SwitchInst>(&I)) {
      d.op = I_SWITCH; d.a = opnd(sw->getCondition()); SwitchT T; T.w = tw(sw->getCondition()->getType()); T.dflt = edge(&B, sw->getDefaultDest());
      std::vector<const BasicBlock *> order; std::map<const BasicBlock *, std::vector<uint64_t>> mp;
      for (auto &cs : sw->cases()) { auto bb = cs.getCaseSuccessor(); if (!mp.count(bb)) order.push_back(bb); mp[bb].push_back(cs.getCaseValue()->getZExtValue()); }
      for (auto bb : order) if (bb != sw->getDefaultDest()) T.groups.push_back({edge(&B, bb), mp[bb]});
      d.ext = df->sws.size(); df->sws.push_back(T);
    } else if (auto cb = dyn_cast<CallBase>(&I)) {
      CallT ct; ct.retw = d.w; 
      for (auto &A : cb->args()) { ct.args.push_back(opnd(A.get())); Type *t = A->getType(); ct.argw.push_back(t->isMetadataTy() ? 0 : tw(t)); ct.argfp.push_back(t->isFloatingPointTy()); }
      const Value *cal = cb->getCalledOperand()->stripPointerCasts(); d.op = I_ICALL;
      if (cb->isInlineAsm()) d.op = I_UNSUP;
      else if (auto fn = dyn_cast<Function>(cal)) {
        Str n = fn->getName().str(); ct.name = n; auto it = g_mods[mod]->fns.find(n);
        if (it != g_mods[mod]->fns.end()) { ct.fn = it->second; d.op = I_CALL; }
        else {
          d.op = I_NCALL;
          if (n.compare(0, 12, "llvm.memcpy.") == 0 || n.compare(0, 13, "llvm.memmove.") == 0) ct.name = "memcpy";
          else if (n.compare(0, 12, "llvm.memset.") == 0) ct.name = "memset";
          else if (n.compare(0, 5, "llvm.") == 0) ct.name = intrinsicBase(n);
          ct.native = nativeId(ct.name);
        }
      } else d.a = opnd(cal);
      d.ext = df->calls.size(); df->calls.push_back(ct);
    } else if (auto r = dyn_cast<ReturnInst>(&I)) { d.op = I_RET; d.flag = r->getReturnValue() != nullptr; if (d.flag) { d.a = opnd(r->getReturnValue()); d.w = tw(r->getReturnValue()->getType()); } }
    else if (auto se = dyn_cast<SelectInst>(&I)) { d.op = I_SELECT; d.a = opnd(se->getCondition()); d.b = opnd(se->getTrueValue()); d.c = opnd(se->getFalseValue()); d.flag = se->getType()->isPointerTy() || se->getType()->isFloatingPointTy(); }
    else if (auto ca = dyn_cast<CastInst>(&I)) {
      d.a = opnd(ca->getOperand(0)); d.w2 = tw(ca->getOperand(0)->getType());
      switch (ca->getOpcode()) {
      case Instruction::ZExt: d.op = I_ZEXT; break; case Instruction::SExt: d.op = I_SEXT; break; case Instruction::Trunc: d.op = I_TRUNC; break;
      case Instruction::PtrToInt: d.op = d.w < 64 ? I_TRUNC : I_MOVE; break; case Instruction::IntToPtr: d.op = d.w2 < 64 ? I_ZEXT : I_MOVE; break; case Instruction::BitCast: d.op = I_MOVE; break;
      case Instruction::SIToFP: d.op = I_SITOFP; break; case Instruction::UIToFP: d.op = I_UITOFP; break; case Instruction::FPToSI: case Instruction::FPToUI: d.op = I_FPTOSI; d.flag = ca->getOpcode() == Instruction::FPToUI; break;
      case Instruction::FPTrunc: d.op = I_FPTRUNC; break; case Instruction::FPExt: d.op = I_FPEXT; break;
      default: d.op = I_UNSUP;
      }
    } else if (auto fc = dyn_cast<FCmpInst>(&I)) { d.op = I_FCMP; d.a = opnd(fc->getOperand(0)); d.b = opnd(fc->getOperand(1)); d.sub = fc->getPredicate(); d.w2 = tw(fc->getOperand(0)->getType()); }
    else if (I.getOpcode() == Instruction::FNeg) { d.op = I_FNEG; d.a = opnd(I.getOperand(0)); }
    else if (auto al = dyn_cast<AllocaInst>(&I)) { d.op = I_ALLOCA; d.imm = DL->getTypeAllocSize(al->getAllocatedType()); d.a = opnd(al->getArraySize()); }
    else if (isa<FreezeInst>(&I)) { d.op = I_MOVE; d.a = opnd(I.getOperand(0)); }
    else if (isa<UnreachableInst>(&I)) d.op = I_UNREACH;
    else d.op = I_UNSUP;
    df->code.push_back(d);
  }
}
static Val n_sym_catch(std::vector<Val> &a, CallT &ct);
#include "interp.inc"
