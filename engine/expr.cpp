#include <map>
#include "expr.h"
#include <cmath>
#include <algorithm>
#include <unordered_set>

std::vector<VarInfo> g_vars;
ZCtx *g_z3;
std::vector<std::pair<E, Z3_ast>> g_sideOf;

static std::unordered_map<uint64_t, std::vector<E>> g_tab;
static uint32_t g_nextId = 1;
static uint64_t g_epoch = 1;
static std::vector<E> g_varExpr;
static std::unordered_map<std::string, uint32_t> g_varByName;

static inline uint64_t mix(uint64_t h, uint64_t v) { h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); return h * 0xff51afd7ed558ccdull; }

static const PWTab *internTab(const PWTab &t) {
  static std::unordered_map<uint64_t, std::vector<const PWTab *>> T;
  uint64_t h = 7;
  for (auto x : t.starts) h = mix(h, x);
  for (auto x : t.vals) h = mix(h, x);
  for (auto p : T[h]) if (p->starts == t.starts && p->vals == t.vals) return p;
  auto p = new PWTab(t); T[h].push_back(p); return p;
}

static unsigned bitlen(uint64_t v) { unsigned n = 0; while (v) { n++; v >>= 1; } return n; }

static void interval(Expr &x) {
  uint64_t M = maskw(x.w); x.lo = 0; x.hi = M;
  E a = x.a, b = x.b;
  switch (x.op) {
  case O_CONST: x.lo = x.hi = x.c; break;
  case O_VAR: x.lo = g_vars[x.c].lo; x.hi = g_vars[x.c].hi; break;
  case O_ADD: {
    unsigned __int128 l = (unsigned __int128)a->lo + b->lo, h = (unsigned __int128)a->hi + b->hi;
    unsigned __int128 R = (unsigned __int128)M + 1;
    if (h <= M) { x.lo = (uint64_t)l; x.hi = (uint64_t)h; }
    else if (l >= R) { x.lo = (uint64_t)(l - R); x.hi = (uint64_t)(h - R); if (h - R > M) { x.lo = 0; x.hi = M; } }
    break; }
  case O_SUB: if (a->lo >= b->hi) { x.lo = a->lo - b->hi; x.hi = a->hi - b->lo; } break;
  case O_MUL: { unsigned __int128 h = (unsigned __int128)a->hi * b->hi; if (h <= M) { x.lo = a->lo * b->lo; x.hi = (uint64_t)h; } break; }
  case O_UDIV: if (b->lo > 0) { x.lo = a->lo / b->hi; x.hi = a->hi / b->lo; } break;
  case O_UREM: if (b->lo > 0) { x.hi = std::min(a->hi, b->hi - 1); } break;
  case O_AND: x.hi = std::min(a->hi, b->hi); break;
  case O_OR: x.lo = std::max(a->lo, b->lo); x.hi = maskw(std::max(bitlen(a->hi), bitlen(b->hi))); break;
  case O_XOR: x.hi = maskw(std::max(bitlen(a->hi), bitlen(b->hi))); break;
  case O_SHL: if (isC(b) && b->c < x.w) { if ((a->hi << b->c) >> b->c == a->hi && (a->hi << b->c) <= M) { x.lo = a->lo << b->c; x.hi = a->hi << b->c; } } break;
  case O_LSHR: if (isC(b) && b->c < x.w) { x.lo = a->lo >> b->c; x.hi = a->hi >> b->c; } break;
  case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: x.hi = 1; break;
  case O_ITE: x.lo = std::min(b->lo, x.d->lo); x.hi = std::max(b->hi, x.d->hi); break;
  case O_CONCAT: x.lo = (a->lo << b->w) | b->lo; x.hi = (a->hi << b->w) | b->hi; if (a->lo != a->hi) { x.lo = a->lo << b->w; x.hi = (a->hi << b->w) | maskw(b->w); } break;
  case O_EXTRACT: if (x.c == 0 && a->hi <= M) { x.lo = a->lo; x.hi = a->hi; } else if ((a->hi >> x.c) <= M) { x.lo = a->lo >> x.c; x.hi = a->hi >> x.c; } break;
  case O_ZEXT: x.lo = a->lo; x.hi = a->hi; break;
  case O_SEXT: { uint64_t s = 1ull << (a->w - 1); if (a->hi < s) { x.lo = a->lo; x.hi = a->hi; } else if (a->lo >= s) { x.lo = a->lo | (M & ~maskw(a->w)); x.hi = a->hi | (M & ~maskw(a->w)); } break; }
  case O_PW: { uint64_t l = ~0ull, h = 0; for (size_t i = 0; i < x.tab->starts.size(); i++) { l = std::min(l, x.tab->vals[i]); h = std::max(h, x.tab->vals[i]); } x.lo = l; x.hi = h; break; }
  case O_DIGIT: x.hi = 9; break;
  case O_RND: { unsigned __int128 p = 1; for (unsigned i = 0; i < x.c; i++) p *= 10; unsigned __int128 h = a->hi * p / (b->lo ? b->lo : 1) + 1; x.hi = h > M ? M : (uint64_t)h; break; }
  case O_FCMP: x.hi = 1; break;
  case O_FPRT: x.hi = 1000000000000000000ull; break;
  default: break;
  }
}

static E canonSmall(E e);
static bool pwVar(E e) { return e && e->op == O_PW && e->a->op == O_VAR; }
static E intern(Op op, unsigned w, uint64_t c, E a = 0, E b = 0, E d = 0, const PWTab *t = 0) {
  uint64_t h = mix(op, w); h = mix(h, c); h = mix(h, a ? a->id : 0); h = mix(h, b ? b->id : 0); h = mix(h, d ? d->id : 0); h = mix(h, (uint64_t)t);
  auto &v = g_tab[h];
  for (E e : v) if (e->op == op && e->w == w && e->c == c && e->a == a && e->b == b && e->d == d && e->tab == t) return e->canon ? e->canon : e;
  Expr *x = new Expr(); x->op = op; x->w = w; x->c = c; x->a = a; x->b = b; x->d = d; x->tab = t; x->id = g_nextId++; x->ev = 0; x->evEpoch = 0; x->z = 0;
  x->taint = (a && a->taint) || (b && b->taint) || (d && d->taint);
  x->hasF = op == O_FOP || op == O_FCMP || op == O_FPRT || (a && a->hasF) || (b && b->hasF) || (d && d->hasF);
  x->hasRnd = op == O_RND || op == O_DIGIT || (a && a->hasRnd) || (b && b->hasRnd) || (d && d->hasRnd);
  if (op == O_VAR) x->taint = g_vars[c].taint;
  interval(*x);
  v.push_back(x);
  if (op != O_PW && op != O_VAR && op != O_CONST && op != O_RND && op != O_FRAT && op != O_DIGIT && op < O_FOP && (pwVar(a) || pwVar(b) || pwVar(d))) { E r = canonSmall(x); if (r && r != x) { x->canon = r; return r; } }
  return x;
}

E mkConst(uint64_t v, unsigned w) { return intern(O_CONST, w, v & maskw(w)); }
E mkVar(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool taint) {
  if (lo == hi) return mkConst(lo, w);
  std::string key = name + "/" + std::to_string(w) + "/" + std::to_string(lo) + "/" + std::to_string(hi);
  auto it = g_varByName.find(key);
  uint32_t i;
  if (it != g_varByName.end()) i = it->second;
  else { i = g_vars.size(); g_vars.push_back({name, w, lo, hi, taint}); g_varByName[key] = i; }
  return intern(O_VAR, w, i);
}

static uint64_t foldBin(Op op, uint64_t a, uint64_t b, unsigned w) {
  uint64_t M = maskw(w); int64_t sa = sextw(a, w), sb = sextw(b, w);
  switch (op) {
  case O_ADD: return (a + b) & M; case O_SUB: return (a - b) & M; case O_MUL: return (a * b) & M;
  case O_UDIV: return b ? a / b : M; case O_UREM: return b ? a % b : a;
  case O_SDIV: if (!b) return sa < 0 ? 1 : M; if (sb == -1) return (-a) & M; return (uint64_t)(sa / sb) & M;
  case O_SREM: if (!b) return a; if (sb == -1) return 0; return (uint64_t)(sa % sb) & M;
  case O_AND: return a & b; case O_OR: return a | b; case O_XOR: return a ^ b;
  case O_SHL: return b >= w ? 0 : (a << b) & M; case O_LSHR: return b >= w ? 0 : a >> b;
  case O_ASHR: return (uint64_t)(b >= w ? (sa < 0 ? -1 : 0) : sa >> b) & M;
  case O_EQ: return a == b; case O_ULT: return a < b; case O_ULE: return a <= b; case O_SLT: return sa < sb; case O_SLE: return sa <= sb;
  default: abort();
  }
}
static bool isCmp(Op op) { return op >= O_EQ && op <= O_SLE; }

static E mapPW(E p, unsigned w, uint64_t (*f)(uint64_t, void *), void *arg) {
  PWTab t; 
  for (size_t i = 0; i < p->tab->starts.size(); i++) {
    uint64_t v = f(p->tab->vals[i], arg) & maskw(w);
    if (t.vals.empty() || t.vals.back() != v) { t.starts.push_back(p->tab->starts[i]); t.vals.push_back(v); }
  }
  return mkPW(t.starts, t.vals, p->a, w);
}
static E combinePW(E p, E q, unsigned w, Op op) {
  PWTab t; size_t i = 0, j = 0; const PWTab &A = *p->tab, &B = *q->tab;
  uint64_t pos = 0;
  while (true) {
    uint64_t v = foldBin(op, A.vals[i], B.vals[j], p->w) & maskw(w);
    if (t.vals.empty() || t.vals.back() != v) { t.starts.push_back(pos); t.vals.push_back(v); }
    bool ni = i + 1 < A.starts.size(), nj = j + 1 < B.starts.size();
    if (!ni && !nj) break;
    uint64_t si = ni ? A.starts[i + 1] : ~0ull, sj = nj ? B.starts[j + 1] : ~0ull;
    pos = std::min(si, sj);
    if (ni && si == pos) i++;
    if (nj && sj == pos) j++;
  }
  return mkPW(t.starts, t.vals, p->a, w);
}

E mkPW(const std::vector<uint64_t> &starts0, const std::vector<uint64_t> &vals0, E x, unsigned w) {
  if (isC(x)) { PWTab t{starts0, vals0}; return mkConst(t.lookup(x->c), w); }
  // restrict to interval of x and merge runs
  PWTab t;
  for (size_t i = 0; i < starts0.size(); i++) {
    uint64_t s = starts0[i], e = i + 1 < starts0.size() ? starts0[i + 1] - 1 : ~0ull;
    if (e < x->lo || s > x->hi) continue;
    if (t.vals.empty()) s = 0;
    if (t.vals.empty() || t.vals.back() != vals0[i]) { t.starts.push_back(s); t.vals.push_back(vals0[i]); }
  }
  if (t.vals.empty()) { fprintf(stderr, "mkPW: empty\n"); abort(); }
  if (t.vals.size() == 1) return mkConst(t.vals[0], w);
  if (w == 1 && t.vals.size() == 2) {
    E c = mkUlt(x, mkConst(t.starts[1], x->w));
    return t.vals[0] ? c : mkNot(c);
  }
  if (w == 1 && t.vals.size() == 3 && t.starts[2] == t.starts[1] + 1) {
    E c = mkEq(x, mkConst(t.starts[1], x->w));
    return t.vals[1] ? c : mkNot(c);
  }
  if (x->op == O_PW) { // compose
    PWTab u;
    for (size_t i = 0; i < x->tab->starts.size(); i++) {
      uint64_t v = t.lookup(x->tab->vals[i]);
      if (u.vals.empty() || u.vals.back() != v) { u.starts.push_back(x->tab->starts[i]); u.vals.push_back(v); }
    }
    return mkPW(u.starts, u.vals, x->a, w);
  }
  if (x->op == O_ZEXT) return mkPW(t.starts, t.vals, x->a, w);
  if (x->hi - x->lo < 4096 && t.vals.size() == x->hi - x->lo + 1) { // identity plus constant?
    bool idp = true; uint64_t d = t.vals[0] - x->lo;
    for (size_t i = 0; i < t.vals.size() && idp; i++) if (t.vals[i] - d != x->lo + i) idp = false;
    if (idp) { E y = w >= x->w ? mkZext(x, w) : x->hi <= maskw(w) ? mkExtract(x, 0, w) : nullptr; if (y) return mkBin(O_ADD, y, mkConst(d, w)); }
  }
  return intern(O_PW, w, 0, x, 0, 0, internTab(t));
}

struct BArg { Op op; uint64_t c; unsigned w; bool left; };
static uint64_t fbin(uint64_t v, void *p) { BArg *b = (BArg *)p; return b->left ? foldBin(b->op, b->c, v, b->w) : foldBin(b->op, v, b->c, b->w); }

E mkNot(E a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == O_XOR && isC(a->b) && a->b->c == 1) return a->a;
  if (a->op == O_ULT) return mkUle(a->b, a->a);
  if (a->op == O_ULE) return mkUlt(a->b, a->a);
  if (a->op == O_SLT) return mkSle(a->b, a->a);
  if (a->op == O_SLE) return mkSlt(a->b, a->a);
  if (a->op == O_PW) { BArg b{O_XOR, 1, 1, false}; return mapPW(a, 1, fbin, &b); }
  return intern(O_XOR, 1, 0, a, mkConst(1, 1));
}

// ---- exact value sets of expressions over few small-range variables
struct Supp { std::vector<uint32_t> v; double prod; };
static std::vector<Supp *> g_supp; static std::vector<std::vector<uint64_t> *> g_vset;
static const double VS_MAX = 300;
static Supp *g_big = new Supp{{}, 1e30};
static Supp *supp(E e) {
  if (e->id < g_supp.size() && g_supp[e->id]) return g_supp[e->id];
  Supp *r;
  if (e->op == O_CONST) r = new Supp{{}, 1};
  else if (e->op == O_VAR) { const VarInfo &v = g_vars[e->c]; double n = (double)(v.hi - v.lo) + 1; r = n > VS_MAX ? g_big : new Supp{{(uint32_t)e->c}, n}; }
  else if (e->op == O_RND || e->op == O_FRAT || e->op >= O_FOP) r = g_big;
  else {
    Supp n{{}, 1}; r = nullptr;
    for (E x : {e->a, e->b, e->d}) if (x) {
      Supp *q = supp(x); if (q->prod > VS_MAX) { r = g_big; break; }
      for (auto v : q->v) { bool have = false; for (auto u : n.v) if (u == v) have = true; if (!have) { n.v.push_back(v); n.prod *= (double)(g_vars[v].hi - g_vars[v].lo) + 1; } }
      if (n.prod > VS_MAX) { r = g_big; break; }
    }
    if (!r) r = new Supp(n);
  }
  if (g_supp.size() <= e->id) g_supp.resize(e->id * 2 + 16, nullptr);
  return g_supp[e->id] = r;
}
static const std::vector<uint64_t> *vset(E e) {
  Supp *s = supp(e); if (s->prod > VS_MAX) return nullptr;
  if (e->id < g_vset.size() && g_vset[e->id]) return g_vset[e->id];
  auto *r = new std::vector<uint64_t>(); Model m; for (auto v : s->v) m.set(v, g_vars[v].lo);
  while (true) {
    evalNewModel(); r->push_back(evalExpr(e, m));
    size_t i = 0; for (; i < s->v.size(); i++) { uint64_t x = m.get(s->v[i]); if (x < g_vars[s->v[i]].hi) { m.set(s->v[i], x + 1); break; } m.set(s->v[i], g_vars[s->v[i]].lo); }
    if (i == s->v.size()) break;
  }
  evalNewModel();
  std::sort(r->begin(), r->end()); r->erase(std::unique(r->begin(), r->end()), r->end());
  if (g_vset.size() <= e->id) g_vset.resize(e->id * 2 + 16, nullptr);
  return g_vset[e->id] = r;
}
// an expression over one variable of a small range is tabulated
static E canonSmall(E e) {
  Supp *s = supp(e); if (s->v.size() != 1 || s->prod > 64) return nullptr;
  uint32_t v = s->v[0]; const VarInfo &vi = g_vars[v]; std::vector<uint64_t> st, vs; Model m;
  for (uint64_t x = vi.lo;; x++) { m.set(v, x); evalNewModel(); uint64_t y = evalExpr(e, m); if (vs.empty() || vs.back() != y) { st.push_back(vs.empty() ? 0 : x); vs.push_back(y); } if (x == vi.hi) break; }
  evalNewModel();
  return mkPW(st, vs, intern(O_VAR, vi.w, v), e->w);
}
// decides comparisons with constants from the value set; -1 unknown
static int vsetCmp(Op op, E a, E b) {
  E e = isC(b) ? a : b; uint64_t c = isC(b) ? b->c : a->c;
  if (e->op == O_VAR) return -1;
  const auto *s = vset(e); if (!s) return -1;
  if (op == O_EQ) { bool in = std::binary_search(s->begin(), s->end(), c); if (!in) return 0; return s->size() == 1 ? 1 : -1; }
  bool t = false, f = false;
  for (auto v : *s) { if (isC(b) ? foldBin(op, v, c, e->w) : foldBin(op, c, v, e->w)) t = true; else f = true; if (t && f) return -1; }
  return t;
}
static bool nonneg(E e) { return e->hi < (1ull << (e->w - 1)); }

// sums in a canonical form: terms by id, constant last
static bool isLin(E e) { return e->op == O_ADD || e->op == O_SUB || (e->op == O_MUL && isC(e->b)); }
typedef std::vector<std::pair<E, uint64_t>> LinT;
static bool linColl(E e, uint64_t k, LinT &t, uint64_t &c, int &budget) {
  if (--budget < 0) return false;
  if (isC(e)) { c += k * e->c; return true; }
  if (e->op == O_ADD) return linColl(e->a, k, t, c, budget) && linColl(e->b, k, t, c, budget);
  if (e->op == O_SUB) return linColl(e->a, k, t, c, budget) && linColl(e->b, 0 - k, t, c, budget);
  if (e->op == O_MUL && isC(e->b)) return linColl(e->a, k * e->b->c, t, c, budget);
  t.push_back({e, k}); return true;
}
static E linear(E a, E b, bool sub) {
  unsigned w = a->w; LinT t; uint64_t c = 0; int budget = 200;
  if (!linColl(a, 1, t, c, budget) || !linColl(b, sub ? ~0ull : 1, t, c, budget)) return nullptr;
  std::sort(t.begin(), t.end(), [](const std::pair<E, uint64_t> &x, const std::pair<E, uint64_t> &y) { return x.first->id < y.first->id; });
  E pos = nullptr, neg = nullptr; uint64_t m = maskw(w); c &= m;
  for (size_t i = 0; i < t.size();) {
    uint64_t k = 0; E x = t[i].first; for (; i < t.size() && t[i].first == x; i++) k += t[i].second;
    k &= m; if (!k) continue;
    bool ng = k >> (w - 1) & 1; uint64_t q = ng ? (0 - k) & m : k;
    E term = q == 1 ? x : intern(O_MUL, w, 0, x, mkConst(q, w));
    E &acc = ng ? neg : pos; acc = acc ? intern(O_ADD, w, 0, acc, term) : term;
  }
  if (!pos && !neg) return mkConst(c, w);
  if (!pos) return intern(O_SUB, w, 0, mkConst(c, w), neg);
  E r = neg ? intern(O_SUB, w, 0, pos, neg) : pos;
  return c ? intern(O_ADD, w, 0, r, mkConst(c, w)) : r;
}
// comparison of sums that cannot wrap: every term to the side where it is positive, common terms cancelled
static bool linSplit(E a, E b, E &pos, E &neg) {
  unsigned w = a->w; LinT ta, tb; uint64_t ca = 0, cb = 0; int budget = 60;
  if (!linColl(a, 1, ta, ca, budget) || !linColl(b, 1, tb, cb, budget)) return false;
  auto ok = [&](LinT &q, uint64_t k) {
    int64_t sk = sextw(k & maskw(w), w); unsigned __int128 tot = sk < 0 ? -sk : sk;
    for (auto &p : q) { int64_t m = sextw(p.second & maskw(w), w); uint64_t am = m < 0 ? -m : m; tot += (unsigned __int128)am * p.first->hi; }
    return tot < ((unsigned __int128)1 << (w - 3));
  };
  if (!ok(ta, ca) || !ok(tb, cb)) return false;
  std::map<uint32_t, std::pair<E, int64_t>> mm;
  for (auto &q : ta) { auto &x = mm[q.first->id]; x.first = q.first; x.second += sextw(q.second & maskw(w), w); }
  for (auto &q : tb) { auto &x = mm[q.first->id]; x.first = q.first; x.second -= sextw(q.second & maskw(w), w); }
  int64_t c = sextw(ca & maskw(w), w) - sextw(cb & maskw(w), w);
  pos = neg = nullptr;
  for (auto &q : mm) { int64_t k = q.second.second; if (!k) continue; uint64_t m = k < 0 ? -k : k; E x = q.second.first; E t = m == 1 ? x : intern(O_MUL, w, 0, x, mkConst(m, w)); E &s = k > 0 ? pos : neg; s = s ? intern(O_ADD, w, 0, s, t) : t; }
  E &s = c > 0 ? pos : neg; uint64_t ac = c < 0 ? -c : c;
  if (ac) s = s ? intern(O_ADD, w, 0, s, mkConst(ac, w)) : mkConst(ac, w);
  if (!pos) pos = mkConst(0, w);
  if (!neg) neg = mkConst(0, w);
  return true;
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "mkBin width mismatch op %d %d %d\n", op, a->w, b->w); abort(); }
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->c, b->c, w), isCmp(op) ? 1 : w);
  // commutative: const to the right
  if ((op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  }
  // piecewise
  if (a->op == O_PW && isC(b)) { BArg g{op, b->c, w, false}; return mapPW(a, isCmp(op) ? 1 : w, fbin, &g); }
  if (b->op == O_PW && isC(a)) { BArg g{op, a->c, w, true}; return mapPW(b, isCmp(op) ? 1 : w, fbin, &g); }
  if (a->op == O_PW && b->op == O_PW && a->a == b->a && a->tab->starts.size() + b->tab->starts.size() < 5000) return combinePW(a, b, isCmp(op) ? 1 : w, op);
  if ((op == O_ADD || op == O_SUB) && w > 8 && !isC(a) && !isC(b) && (isLin(a) || isLin(b))) { E r = linear(a, b, op == O_SUB); if (r) return r; }
  if (w >= 16 && (op == O_SLT || op == O_SLE || op == O_EQ) && (isLin(a) || isLin(b)) && (a->op == O_SUB || b->op == O_SUB || (!isC(a) && !isC(b)) || a->hi > maskw(w - 1) || b->hi > maskw(w - 1))) {
    E p, n; if (linSplit(a, b, p, n)) {
      if (op != O_EQ) return mkBin(op == O_SLT ? O_ULT : O_ULE, p, n);
      if (!((p == a && n == b) || (p == b && n == a))) return mkBin(O_EQ, p, n);
    }
  }
  if (op == O_SUB && isC(a) && a->c == 0 && b->op == O_SUB) return mkBin(O_SUB, b->b, b->a);
  if (op == O_SUB && isC(a) && a->c == 0 && b->op == O_MUL && isC(b->b) && b->a->op == O_SUB) return mkBin(O_MUL, mkBin(O_SUB, b->a->b, b->a->a), b->b);
  switch (op) {
  case O_ADD:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->c + b->c, w));
      if (a->op == O_SUB && isC(a->a)) return mkBin(O_SUB, mkConst(a->a->c + b->c, w), a->b);
      if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c + b->c, w), mkConst(a->d->c + b->c, w));
    }
    if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
    if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
    if (b->op == O_SUB && b->b == a) return b->a;
    if (a->op == O_SUB && a->b == b) return a->a;
    break;
  case O_SUB:
    if (a == b) return mkConst(0, w);
    if (isC(b)) return mkBin(O_ADD, a, mkConst(-b->c, w));
    if (a->op == O_ADD && a->a == b) return a->b;
    if (a->op == O_ADD && a->b == b) return a->a;
    if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b->a), mkConst(a->b->c - b->b->c, w));
    if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_SUB, a->a, b), a->b);
    if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_SUB, a, b->a), mkConst(-b->b->c, w));
    break;
  case O_MUL:
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == 1) return a;
      if (a->op == O_MUL && isC(a->b)) return mkBin(O_MUL, a->a, mkConst(a->b->c * b->c, w));
      if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, mkBin(O_MUL, a->a, b), mkConst(a->b->c * b->c, w));
    }
    break;
  case O_UDIV: if (isC(b) && b->c == 1) return a; if (a->hi < b->lo) return mkConst(0, w); break;
  case O_UREM: if (isC(b) && b->c == 1) return mkConst(0, w); if (a->hi < b->lo) return a; break;
  case O_SDIV: if (nonneg(a) && nonneg(b)) return mkBin(O_UDIV, a, b); break;
  case O_SREM: if (nonneg(a) && nonneg(b)) return mkBin(O_UREM, a, b); break;
  case O_AND:
    if (a == b) return a;
    if (isC(b)) {
      if (b->c == 0) return b;
      if (b->c == maskw(w)) return a;
      if (w > 1 && (b->c & (b->c + 1)) == 0) { // low mask
        unsigned k = bitlen(b->c);
        if (a->hi <= b->c) return a;
        return mkZext(mkExtract(a, 0, k), w);
      }
      if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->c & b->c, w));
      if (a->op == O_ZEXT && b->c > maskw(a->a->w)) return mkBin(O_AND, a, mkConst(b->c & maskw(a->a->w), w));
    }
    if (w == 1) {
      if (a == mkNot(b)) return mkConst(0, 1);
      if (a->op == O_AND && (a->a == b || a->b == b)) return a;
      if (b->op == O_AND && (b->a == a || b->b == a)) return b;
    }
    break;
  case O_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->c == 0) return a; if (b->c == maskw(w)) return b; 
      if (a->op == O_OR && isC(a->b)) return mkBin(O_OR, a->a, mkConst(a->b->c | b->c, w)); 
      if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c | b->c, w), mkConst(a->d->c | b->c, w)); }
    if (w == 1) {
      if (a == mkNot(b)) return mkConst(1, 1);
      if (a->op == O_OR && (a->a == b || a->b == b)) return a;
      if (b->op == O_OR && (b->a == a || b->b == a)) return b;
    }
    // disjoint bits -> concat-like forms left alone
    break;
  case O_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b) && b->c == 0) return a;
    if (w == 1 && isC(b)) return mkNot(a);
    if (isC(b) && a->op == O_XOR && isC(a->b)) return mkBin(O_XOR, a->a, mkConst(a->b->c ^ b->c, w));
    break;
  case O_SHL:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(0, w);
      if (a->op == O_ZEXT && a->a->w + b->c <= w) {
        E r = mkConcat(a->a, mkConst(0, b->c));
        return mkZext(r, w);
      }
      return mkConcat(mkExtract(a, 0, w - b->c), mkConst(0, b->c));
    }
    break;
  case O_LSHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (b->c >= w) return mkConst(0, w);
      return mkZext(mkExtract(a, b->c, w - b->c), w);
    }
    break;
  case O_ASHR:
    if (isC(b)) {
      if (b->c == 0) return a;
      if (nonneg(a)) return mkBin(O_LSHR, a, b);
      unsigned s = b->c >= w ? w - 1 : b->c;
      return mkSext(mkExtract(a, s, w - s), w);
    }
    break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if (a->hi < b->lo || b->hi < a->lo) return mkConst(0, 1);
    if (w == 1) { if (isC(b)) return b->c ? a : mkNot(a); if (a->op == O_XOR && isC(a->b)) return mkNot(mkBin(O_EQ, a->a, b)); if (b->op == O_XOR && isC(b->b)) return mkNot(mkBin(O_EQ, a, b->a)); }
    if (isC(b)) {
      if (a->op == O_ADD && isC(a->b)) return mkEq(a->a, mkConst(b->c - a->b->c, w));
      if (a->op == O_SUB && isC(a->a)) return mkEq(a->b, mkConst(a->a->c - b->c, w));
      if (a->op == O_ZEXT) { if (b->c > maskw(a->a->w)) return mkConst(0, 1); return mkEq(a->a, mkConst(b->c, a->a->w)); }
      if (a->op == O_SEXT) { uint64_t t = b->c & maskw(a->a->w); if ((uint64_t)(sextw(t, a->a->w) & maskw(w)) != b->c) return mkConst(0, 1); return mkEq(a->a, mkConst(t, a->a->w)); }
      if (a->op == O_CONCAT) return mkBin(O_AND, mkEq(a->a, mkConst(b->c >> a->b->w, a->a->w)), mkEq(a->b, mkConst(b->c, a->b->w)));
      if (a->op == O_XOR && isC(a->b)) return mkEq(a->a, mkConst(a->b->c ^ b->c, w));
      if (a->op == O_ITE) {
        if (isC(a->b) || isC(a->d) || true) {
          E t = mkEq(a->b, b), f = mkEq(a->d, b);
          if (isC(t) || isC(f)) return mkIte(a->a, t, f);
        }
      }
      if (a->op == O_MUL && isC(a->b) && a->b->c && a->hi < maskw(w) && a->a->hi <= maskw(w) / a->b->c) { if (b->c % a->b->c) return mkConst(0, 1); return mkEq(a->a, mkConst(b->c / a->b->c, w)); }
    } else {
      if (a->op == O_ZEXT && b->op == O_ZEXT) { if (a->a->w == b->a->w) return mkEq(a->a, b->a); unsigned mw = std::max(a->a->w, b->a->w); return mkEq(mkZext(a->a, mw), mkZext(b->a, mw)); }
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkEq(a->a, b->a);
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w) return mkBin(O_AND, mkEq(a->a, b->a), mkEq(a->b, b->b));
      if (a->op == O_ADD && b->op == O_ADD && isC(a->b) && a->b == b->b) return mkEq(a->a, b->a);
      if (a->op == O_ADD && (a->a == b || a->b == b)) return mkEq(a->a == b ? a->b : a->a, mkConst(0, w));
      if (b->op == O_ADD && (b->a == a || b->b == a)) return mkEq(b->a == a ? b->b : b->a, mkConst(0, w));
    }
    break;
  case O_ULT:
    if (a == b) return mkConst(0, 1);
    if (a->hi < b->lo) return mkConst(1, 1);
    if (a->lo >= b->hi) return mkConst(0, 1);
    if (w == 1) return mkBin(O_AND, mkNot(a), b);
    if (isC(b)) { // a < c
      if (b->c == a->lo + 1) return mkEq(a, mkConst(a->lo, w));
      if (a->op == O_ZEXT) return mkUlt(a->a, mkConst(b->c, a->a->w));
      if (a->op == O_ADD && isC(a->b) && a->a->hi <= maskw(w) - a->b->c && b->c >= a->b->c) return mkUlt(a->a, mkConst(b->c - a->b->c, w));
      if (a->op == O_ITE && (isC(a->b) || isC(a->d))) { E t = mkUlt(a->b, b), f = mkUlt(a->d, b); if (isC(t) || isC(f)) return mkIte(a->a, t, f); }
    }
    if (isC(a)) {
      if (a->c + 1 == b->hi) return mkEq(b, mkConst(b->hi, w));
      if (b->op == O_ZEXT) return mkUlt(mkConst(a->c, b->a->w), b->a);
      if (b->op == O_ADD && isC(b->b) && b->a->hi <= maskw(w) - b->b->c && a->c >= b->b->c) return mkUlt(mkConst(a->c - b->b->c, w), b->a);
      if (b->op == O_ITE && (isC(b->b) || isC(b->d))) { E t = mkUlt(a, b->b), f = mkUlt(a, b->d); if (isC(t) || isC(f)) return mkIte(b->a, t, f); }
    }
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUlt(a->a, b->a);
    break;
  case O_ULE:
    if (isC(b)) { if (b->c == maskw(w)) return mkConst(1, 1); return mkUlt(a, mkConst(b->c + 1, w)); }
    if (isC(a)) { if (a->c == 0) return mkConst(1, 1); return mkUlt(mkConst(a->c - 1, w), b); }
    if (a == b) return mkConst(1, 1);
    if (a->hi <= b->lo) return mkConst(1, 1);
    if (a->lo > b->hi) return mkConst(0, 1);
    if (w == 1) return mkBin(O_OR, mkNot(a), b);
    if (a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mkUle(a->a, b->a);
    break;
  case O_SLT:
    if (a == b) return mkConst(0, 1);
    if (w > 1) {
      bool an = nonneg(a), bn = nonneg(b), aN = a->lo >= (1ull << (w - 1)), bN = b->lo >= (1ull << (w - 1));
      if (an && bn) return mkUlt(a, b);
      if (aN && bN) return mkUlt(a, b);
      if (an && bN) return mkConst(0, 1);
      if (aN && bn) return mkConst(1, 1);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSlt(a->a, b->a);
      if (a->op == O_SEXT && isC(b)) { int64_t v = sextw(b->c, w); int64_t mn = -(1ll << (a->a->w - 1)), mx = (1ll << (a->a->w - 1)) - 1; if (v > mx) return mkConst(1, 1); if (v <= mn) return mkConst(0, 1); return mkSlt(a->a, mkConst(v, a->a->w)); }
      if (b->op == O_SEXT && isC(a)) { int64_t v = sextw(a->c, w); int64_t mn = -(1ll << (b->a->w - 1)), mx = (1ll << (b->a->w - 1)) - 1; if (v >= mx) return mkConst(0, 1); if (v < mn) return mkConst(1, 1); return mkSlt(mkConst(v, b->a->w), b->a); }
      if (isC(b) && a->op == O_ITE && (isC(a->b) || isC(a->d))) { E t = mkSlt(a->b, b), f = mkSlt(a->d, b); if (isC(t) || isC(f)) return mkIte(a->a, t, f); }
      if (isC(a) && b->op == O_ITE && (isC(b->b) || isC(b->d))) { E t = mkSlt(a, b->b), f = mkSlt(a, b->d); if (isC(t) || isC(f)) return mkIte(b->a, t, f); }
    }
    break;
  case O_SLE:
    if (a == b) return mkConst(1, 1);
    if (isC(b)) { if (b->c == maskw(w) >> 1) return mkConst(1, 1); return mkSlt(a, mkConst(b->c + 1, w)); }
    if (isC(a)) { if (a->c == 1ull << (w - 1)) return mkConst(1, 1); return mkSlt(mkConst(a->c - 1, w), b); }
    if (w > 1) {
      bool an = nonneg(a), bn = nonneg(b), aN = a->lo >= (1ull << (w - 1)), bN = b->lo >= (1ull << (w - 1));
      if ((an && bn) || (aN && bN)) return mkUle(a, b);
      if (an && bN) return mkConst(0, 1);
      if (aN && bn) return mkConst(1, 1);
      if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkSle(a->a, b->a);
    }
    break;
  default: break;
  }
  if (isCmp(op) && (isC(a) || isC(b)) && w > 1) { int k = vsetCmp(op, a, b); if (k >= 0) return mkConst(k, 1); }
  return intern(op, isCmp(op) ? 1 : w, 0, a, b);
}

E mkIte(E c, E t, E f) {
  if (isC(c)) return c->c ? t : f;
  if (t == f) return t;
  if (t->w != f->w) { fprintf(stderr, "mkIte width\n"); abort(); }
  if (t->w == 1) {
    if (isC(t)) return t->c ? mkBin(O_OR, c, f) : mkBin(O_AND, mkNot(c), f);
    if (isC(f)) return f->c ? mkBin(O_OR, mkNot(c), t) : mkBin(O_AND, c, t);
    if (t == c) return mkBin(O_OR, c, f);
    if (f == c) return mkBin(O_AND, c, t);
  }
  if (c->op == O_XOR && isC(c->b)) return mkIte(c->a, f, t);
  if (c->op == O_PW && isC(t) && isC(f)) { PWTab u; for (size_t i = 0; i < c->tab->starts.size(); i++) { u.starts.push_back(c->tab->starts[i]); u.vals.push_back(c->tab->vals[i] ? t->c : f->c); } return mkPW(u.starts, u.vals, c->a, t->w); }
  if (t->op == O_ITE && t->a == c) t = t->b;
  if (f->op == O_ITE && f->a == c) f = f->d;
  if (t == f) return t;
  return intern(O_ITE, t->w, 0, c, t, f);
}

E mkConcat(E h, E l) {
  if (isC(h) && isC(l)) return mkConst((h->c << l->w) | l->c, h->w + l->w);
  if (isC(h) && h->c == 0) return mkZext(l, h->w + l->w);
  if (h->op == O_EXTRACT && l->op == O_EXTRACT && h->a == l->a && h->c == l->c + l->w) return mkExtract(h->a, l->c, h->w + l->w);
  if (l->op == O_EXTRACT && h->op == O_ZEXT && h->a->op == O_EXTRACT && h->a->a == l->a && h->a->c == l->c + l->w)
    return mkZext(mkConcat(h->a, l), h->w + l->w);
  if (l->op == O_CONCAT) return mkConcat(mkConcat(h, l->a), l->b);
  if (h->op == O_SEXT && 0) {}
  return intern(O_CONCAT, h->w + l->w, 0, h, l);
}
struct XArg { unsigned lo, w; };
static uint64_t fext(uint64_t v, void *p) { XArg *x = (XArg *)p; return v >> x->lo; }
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo + w > a->w) { fprintf(stderr, "mkExtract range\n"); abort(); }
  if (isC(a)) return mkConst(a->c >> lo, w);
  if (lo >= 64 || (a->hi >> lo) == 0) return mkConst(0, w);
  switch (a->op) {
  case O_EXTRACT: return mkExtract(a->a, a->c + lo, w);
  case O_CONCAT:
    if (lo + w <= a->b->w) return mkExtract(a->b, lo, w);
    if (lo >= a->b->w) return mkExtract(a->a, lo - a->b->w, w);
    return mkConcat(mkExtract(a->a, 0, lo + w - a->b->w), mkExtract(a->b, lo, a->b->w - lo));
  case O_ZEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo >= a->a->w) return mkConst(0, w);
    return mkZext(mkExtract(a->a, lo, a->a->w - lo), w);
  case O_SEXT:
    if (lo + w <= a->a->w) return mkExtract(a->a, lo, w);
    if (lo == 0) return mkSext(a->a, w);
    break;
  case O_ITE:
    if (isC(a->b) || isC(a->d) || w == 1) return mkIte(a->a, mkExtract(a->b, lo, w), mkExtract(a->d, lo, w));
    break;
  case O_AND: case O_OR: case O_XOR:
    return mkBin(a->op, mkExtract(a->a, lo, w), mkExtract(a->b, lo, w));
  case O_ADD: case O_SUB: case O_MUL:
    if (lo == 0) return mkBin(a->op, mkExtract(a->a, 0, w), mkExtract(a->b, 0, w));
    break;
  case O_PW: { XArg x{lo, w}; return mapPW(a, w, fext, &x); }
  default: break;
  }
  return intern(O_EXTRACT, w, lo, a);
}
// for stores: keeps the bytes of a wider value recognisable, so that reading them back gives the value
E mkExtractRaw(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  if (lo >= 64 || (a->hi >> lo) == 0) return mkConst(0, w);
  switch (a->op) {
  case O_CONCAT:
    if (lo + w <= a->b->w) return mkExtractRaw(a->b, lo, w);
    if (lo >= a->b->w) return mkExtractRaw(a->a, lo - a->b->w, w);
    break;
  case O_ZEXT: if (lo + w <= a->a->w) return mkExtractRaw(a->a, lo, w); break;
  case O_ADD: case O_SUB: case O_MUL: case O_AND: case O_OR: case O_XOR: case O_ITE: case O_PW: { E r = mkExtract(a, lo, w); if (isC(r)) return r; return intern(O_EXTRACT, w, lo, a); }
  default: break;
  }
  return mkExtract(a, lo, w);
}
static uint64_t fid(uint64_t v, void *) { return v; }
E mkZext(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst(a->c, w);
  if (a->op == O_ZEXT) return mkZext(a->a, w);
  if (a->op == O_ADD && (unsigned __int128)a->a->hi + a->b->hi <= maskw(a->w)) return mkBin(O_ADD, mkZext(a->a, w), mkZext(a->b, w));
  if (a->op == O_MUL && isC(a->b) && a->w >= 16 && (unsigned __int128)a->a->hi * a->b->c <= maskw(a->w)) return mkBin(O_MUL, mkZext(a->a, w), mkConst(a->b->c, w));
  if (a->op == O_PW) return mapPW(a, w, fid, 0);
  if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkConst(a->b->c, w), mkConst(a->d->c, w));
  // zext of non-overflowing extract of larger: zext(extract(x,0,k)) == x if x fits
  if (a->op == O_EXTRACT && a->c == 0 && a->a->hi <= maskw(a->w)) { if (a->a->w == w) return a->a; if (a->a->w < w) return mkZext(a->a, w); return mkExtract(a->a, 0, w); }
  return intern(O_ZEXT, w, 0, a);
}
static uint64_t fsx(uint64_t v, void *p) { return (uint64_t)sextw(v, *(unsigned *)p); }
E mkSext(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return mkConst((uint64_t)sextw(a->c, a->w), w);
  if (a->w > 1 && nonneg(a)) return mkZext(a, w);
  if (a->op == O_SEXT) return mkSext(a->a, w);
  if (a->op == O_PW) { unsigned k = a->w; return mapPW(a, w, fsx, &k); }
  if (a->op == O_ITE && isC(a->b) && isC(a->d)) return mkIte(a->a, mkSext(a->b, w), mkSext(a->d, w));
  return intern(O_SEXT, w, 0, a);
}
static uint64_t pow10u(unsigned k) { uint64_t p = 1; while (k--) p *= 10; return p; }
E mkDigit(E v, unsigned k, unsigned nd) {
  if (isC(v)) return mkConst(v->c / pow10u(k) % 10, 8);
  return intern(O_DIGIT, 8, k | (nd << 8), v);
}
uint64_t nativeRnd(uint64_t a, uint64_t b, unsigned p) {
  char buf[400], out[400]; snprintf(buf, sizeof buf, "%.*f", (int)p, (double)a / (double)b);
  int j = 0; for (int i = 0; buf[i]; i++) if (buf[i] != '.') out[j++] = buf[i];
  out[j] = 0; return strtoull(out, 0, 10);
}
E mkRnd(E a, E b, unsigned p) {
  if (isC(a) && isC(b)) return mkConst(nativeRnd(a->c, b->c, p), 64);
  return intern(O_RND, 64, p, a, b);
}
static double DD(uint64_t v) { double x; memcpy(&x, &v, 8); return x; }
static uint64_t fopC(unsigned k, uint64_t a, uint64_t b) { double x = DD(a), y = DD(b), r = k == 0 ? x + y : k == 1 ? x - y : k == 2 ? x * y : k == 3 ? x / y : sqrt(x); uint64_t u; if (k == 5) return a; memcpy(&u, &r, 8); return u; }
static bool fcmpC(unsigned k, uint64_t a, uint64_t b) { double x = DD(a), y = DD(b); return k == 0 ? x < y : k == 1 ? x <= y : x == y; }
static uint64_t fprtC(uint64_t a, unsigned p) { double x = DD(a); if (!(x >= 0) || x > 1e12) return 0; char buf[400], out[400]; snprintf(buf, sizeof buf, "%.*f", (int)p, x); int j = 0; for (int i = 0; buf[i]; i++) if (buf[i] != '.') out[j++] = buf[i]; out[j] = 0; return strtoull(out, 0, 10); }
E mkFop(unsigned k, E a, E b) { if (k == 5 && a->op != O_ITE) return a; if (isC(a) && (!b || isC(b))) return mkConst(fopC(k, a->c, b ? b->c : 0), 64); return intern(O_FOP, 64, k, a, b); }
E mkFcmp(unsigned k, E a, E b) { if (a->op == O_FOP && a->c == 5) a = a->a; if (b->op == O_FOP && b->c == 5) b = b->a; if (isC(a) && isC(b)) return mkConst(fcmpC(k, a->c, b->c), 1); if (a->op == O_ITE && isC(b)) return mkIte(a->a, mkFcmp(k, a->b, b), mkFcmp(k, a->d, b)); if (b->op == O_ITE && isC(a)) return mkIte(b->a, mkFcmp(k, a, b->b), mkFcmp(k, a, b->d)); return intern(O_FCMP, 1, k, a, b); }
E mkFprt(E a, unsigned p) { if (isC(a)) return mkConst(fprtC(a->c, p), 64); return intern(O_FPRT, 64, p, a); }
E mkFrat(E a, E b) { return intern(O_FRAT, 64, 0, a, b); }

void evalNewModel() { g_epoch++; }
uint64_t evalExpr(E e, const Model &m) {
  if (e->op == O_CONST) return e->c;
  if (e->evEpoch == g_epoch) return e->ev;
  uint64_t r;
  switch (e->op) {
  case O_VAR: r = m.get(e->c); break;
  case O_ITE: r = evalExpr(e->a, m) ? evalExpr(e->b, m) : evalExpr(e->d, m); break;
  case O_CONCAT: r = (evalExpr(e->a, m) << e->b->w) | evalExpr(e->b, m); break;
  case O_EXTRACT: r = (evalExpr(e->a, m) >> e->c) & maskw(e->w); break;
  case O_ZEXT: r = evalExpr(e->a, m); break;
  case O_SEXT: r = (uint64_t)sextw(evalExpr(e->a, m), e->a->w) & maskw(e->w); break;
  case O_PW: r = e->tab->lookup(evalExpr(e->a, m)); break;
  case O_DIGIT: r = evalExpr(e->a, m) / pow10u(e->c & 255) % 10; break;
  case O_RND: { uint64_t b = evalExpr(e->b, m); r = b ? nativeRnd(evalExpr(e->a, m), b, e->c) : 0; break; }
  case O_FRAT: { double x = (double)(int64_t)evalExpr(e->a, m) / (double)(int64_t)evalExpr(e->b, m); memcpy(&r, &x, 8); break; }
  case O_FOP: r = fopC(e->c, evalExpr(e->a, m), e->b ? evalExpr(e->b, m) : 0); break;
  case O_FCMP: r = fcmpC(e->c, evalExpr(e->a, m), evalExpr(e->b, m)); break;
  case O_FPRT: r = fprtC(evalExpr(e->a, m), e->c); break;
  default: r = foldBin(e->op, evalExpr(e->a, m), evalExpr(e->b, m), e->a->w);
  }
  e->evEpoch = g_epoch; e->ev = r;
  return r;
}

std::string exprStr(E e, int depth) {
  static const char *N[] = {"const", "var", "+", "-", "*", "/u", "/s", "%u", "%s", "&", "|", "^", "<<", ">>u", ">>s", "==", "<u", "<=u", "<s", "<=s", "ite", "concat", "extract", "zext", "sext", "pw", "digit", "rnd", "frat", "fop", "fcmp", "fprt"};
  if (e->op == O_CONST) { char b[40]; snprintf(b, 40, "%llu", (unsigned long long)e->c); return b; }
  if (e->op == O_VAR) return g_vars[e->c].name;
  if (depth == 0) return "#" + std::to_string(e->id);
  std::string s = std::string("(") + N[e->op];
  if (e->op == O_EXTRACT) s += "[" + std::to_string(e->c) + "+" + std::to_string(e->w) + "]";
  if (e->op == O_PW) s += "<" + std::to_string(e->tab->starts.size()) + ">";
  for (E x : {e->a, e->b, e->d}) if (x) s += " " + exprStr(x, depth - 1);
  return s + ")";
}

// ---------------------------------------------------------------- z3
static Z3_context C() { return *g_z3; }
static Z3_sort bvs(unsigned w) {
  static Z3_sort s[130]; if (!s[w]) { s[w] = Z3_mk_bv_sort(C(), w); Z3_inc_ref(C(), Z3_sort_to_ast(C(), s[w])); } return s[w];
}
static Z3_ast zc(uint64_t v, unsigned w) { return Z3_mk_unsigned_int64(C(), v, bvs(w)); }
static Z3_ast zvar(const std::string &n, unsigned w) {
  Z3_symbol s = Z3_mk_string_symbol(C(), n.c_str());
  return Z3_mk_const(C(), s, w == 1 ? Z3_mk_bool_sort(C()) : bvs(w));
}
std::string smtName(E e) { return "v" + std::to_string(e->c) ; }
static Z3_ast pwTree(Z3_ast x, unsigned xw, const PWTab &t, size_t i, size_t j, unsigned w) {
  if (j - i == 1) return w == 1 ? (t.vals[i] ? Z3_mk_true(C()) : Z3_mk_false(C())) : zc(t.vals[i], w);
  size_t m = (i + j) / 2;
  Z3_ast c = Z3_mk_bvult(C(), x, zc(t.starts[m], xw));
  return Z3_mk_ite(C(), c, pwTree(x, xw, t, i, m, w), pwTree(x, xw, t, m, j, w));
}
static Z3_ast digitVar(E v, unsigned k, unsigned nd) {
  return zvar("dig_" + std::to_string(v->id) + "_" + std::to_string(k) + "_" + std::to_string(nd), 8);
}
static Z3_ast ext(Z3_ast a, unsigned from, unsigned to) { if (from == to) return a;
  if (to < from && Z3_is_app(C(), a)) { // through a zero extension
    Z3_app ap = Z3_to_app(C(), a); Z3_func_decl fd = Z3_get_app_decl(C(), ap);
    if (Z3_get_decl_kind(C(), fd) == Z3_OP_ZERO_EXT) { Z3_ast in = Z3_get_app_arg(C(), ap, 0); unsigned iw = Z3_get_bv_sort_size(C(), Z3_get_sort(C(), in)); if (iw <= to) return iw == to ? in : Z3_mk_zero_ext(C(), to - iw, in); }
  } if (to > from) return Z3_mk_zero_ext(C(), to - from, a); return Z3_mk_extract(C(), to - 1, 0, a); }

// signed comparison or equality of sums that cannot wrap: terms moved to the side where they are positive
static Z3_ast linCmp(E e) {
  if (e->a->w != 64) return nullptr;
  LinT t; uint64_t c = 0; int budget = 400; 
  if (!linColl(e->a, 1, t, c, budget) || !linColl(e->b, ~0ull, t, c, budget)) return nullptr;
  if (t.size() > 100) return nullptr;
  unsigned __int128 tot = (int64_t)c < 0 ? 0 - c : c;
  for (auto &q : t) { uint64_t m = (int64_t)q.second < 0 ? 0 - q.second : q.second; if (m > (1ull << 40)) return nullptr; tot += (unsigned __int128)m * q.first->hi; }
  if (tot >> 61) return nullptr;
  std::map<uint32_t, std::pair<E, int64_t>> mm; for (auto &q : t) { auto &x = mm[q.first->id]; x.first = q.first; x.second += (int64_t)q.second; }
  uint64_t sp = 0, sn = 0; if ((int64_t)c > 0) sp += c; else sn += 0 - c;
  for (auto &q : mm) { if (q.second.second > 0) sp += q.second.second * q.second.first->hi; else sn += (uint64_t)-q.second.second * q.second.first->hi; }
  unsigned n = std::max(2u, bitlen(std::max(sp, sn)));
  Z3_ast P = (int64_t)c > 0 ? zc(c, n) : zc(0, n), N = (int64_t)c < 0 ? zc(0 - c, n) : zc(0, n);
  for (auto &q : mm) {
    int64_t k = q.second.second; if (!k) continue; uint64_t m = k < 0 ? -k : k;
    Z3_ast x = ext(toZ3(q.second.first), 64, n); if (m != 1) x = Z3_mk_bvmul(g_z3->c, x, zc(m, n));
    Z3_ast &S = k > 0 ? P : N; S = Z3_mk_bvadd(g_z3->c, S, x);
  }
  return e->op == O_EQ ? Z3_mk_eq(g_z3->c, P, N) : e->op == O_SLT ? Z3_mk_bvult(g_z3->c, P, N) : Z3_mk_bvule(g_z3->c, P, N);
}
Z3_ast toZ3(E e) {
  if (e->z) return e->z;
  Z3_ast r = 0; unsigned w = e->w;
  auto B = [&](E x) { return toZ3(x); };
  switch (e->op) {
  case O_CONST: r = w == 1 ? (e->c ? Z3_mk_true(C()) : Z3_mk_false(C())) : zc(e->c, w); break;
  case O_VAR: { unsigned n = std::max(1u, bitlen(g_vars[e->c].hi)); if (n == 1 && w > 1) n = 2; r = w == 1 || n >= w ? zvar(smtName(e), w) : ext(zvar(smtName(e), n), n, w); break; }
  case O_ADD: if (w == 1) r = Z3_mk_xor(C(), B(e->a), B(e->b));
    else if (w > 8 && (unsigned __int128)e->a->hi + e->b->hi <= maskw(w - 1)) { unsigned n = std::max(2u, bitlen(e->a->hi + e->b->hi)); r = ext(Z3_mk_bvadd(C(), ext(B(e->a), w, n), ext(B(e->b), w, n)), n, w); }
    else r = Z3_mk_bvadd(C(), B(e->a), B(e->b)); break;
  case O_SUB: if (w == 1) r = Z3_mk_xor(C(), B(e->a), B(e->b)); else r = Z3_mk_bvsub(C(), B(e->a), B(e->b)); break;
  case O_MUL: case O_UDIV: case O_UREM: {
    if (w == 1) { Z3_ast x[2] = {B(e->a), B(e->b)}; r = Z3_mk_and(C(), 2, x); break; }
    // narrow when intervals allow: the operation cannot overflow in n bits
    unsigned n = w;
    if (e->op == O_MUL) { unsigned __int128 h = (unsigned __int128)e->a->hi * e->b->hi; if (h <= maskw(w)) n = std::max(std::max(bitlen((uint64_t)h), bitlen(e->a->hi)), std::max(bitlen(e->b->hi), 2u)); }
    else n = std::max(std::max(bitlen(e->a->hi), bitlen(e->b->hi)), 2u);
    if (n >= w) n = w;
    Z3_ast a = ext(B(e->a), w, n), b = ext(B(e->b), w, n);
    r = e->op == O_MUL ? Z3_mk_bvmul(C(), a, b) : e->op == O_UDIV ? Z3_mk_bvudiv(C(), a, b) : Z3_mk_bvurem(C(), a, b);
    r = ext(r, n, w); break; }
  case O_SDIV: r = Z3_mk_bvsdiv(C(), B(e->a), B(e->b)); break;
  case O_SREM: r = Z3_mk_bvsrem(C(), B(e->a), B(e->b)); break;
  case O_AND: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = w == 1 ? Z3_mk_and(C(), 2, x) : Z3_mk_bvand(C(), x[0], x[1]); break; }
  case O_OR: { Z3_ast x[2] = {B(e->a), B(e->b)}; r = w == 1 ? Z3_mk_or(C(), 2, x) : Z3_mk_bvor(C(), x[0], x[1]); break; }
  case O_XOR: if (w == 1) r = isC(e->b) ? Z3_mk_not(C(), B(e->a)) : Z3_mk_xor(C(), B(e->a), B(e->b)); else r = Z3_mk_bvxor(C(), B(e->a), B(e->b)); break;
  case O_SHL: r = Z3_mk_bvshl(C(), B(e->a), B(e->b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(C(), B(e->a), B(e->b)); break;
  case O_ASHR: r = Z3_mk_bvashr(C(), B(e->a), B(e->b)); break;
  case O_EQ: {
    if (e->a->w == 64 && (e->a->op == O_SUB || e->b->op == O_SUB || e->a->op == O_ADD || e->b->op == O_ADD)) { Z3_ast q = linCmp(e); if (q) { r = q; break; } }
    unsigned aw = e->a->w, n = std::max(2u, std::max(bitlen(e->a->hi), bitlen(e->b->hi)));
    Z3_ast a = B(e->a), b = B(e->b);
    if (n < aw && aw > 1) { a = ext(a, aw, n); b = ext(b, aw, n); }
    r = Z3_mk_eq(C(), a, b); break; }
  case O_ULT: case O_ULE: {
    unsigned aw = e->a->w, n = std::max(1u, std::max(bitlen(e->a->hi), bitlen(e->b->hi)));
    Z3_ast a = B(e->a), b = B(e->b);
    if (n < aw && aw > 1) { a = ext(a, aw, n); b = ext(b, aw, n); }
    r = e->op == O_ULT ? Z3_mk_bvult(C(), a, b) : Z3_mk_bvule(C(), a, b); break; }
  case O_SLT: case O_SLE: { Z3_ast q = linCmp(e); if (q) { r = q; break; } r = e->op == O_SLT ? Z3_mk_bvslt(C(), B(e->a), B(e->b)) : Z3_mk_bvsle(C(), B(e->a), B(e->b)); break; }
  //(C(), B(e->a), B(e->b)); break;
  case O_ITE: r = Z3_mk_ite(C(), B(e->a), B(e->b), B(e->d)); break;
  case O_CONCAT: { Z3_ast a = B(e->a), b = B(e->b); if (e->a->w == 1) a = Z3_mk_ite(C(), a, zc(1, 1), zc(0, 1)); if (e->b->w == 1) b = Z3_mk_ite(C(), b, zc(1, 1), zc(0, 1)); r = Z3_mk_concat(C(), a, b); break; }
  case O_EXTRACT: r = Z3_mk_extract(C(), e->c + w - 1, e->c, B(e->a)); if (w == 1) r = Z3_mk_eq(C(), r, zc(1, 1)); break;
  case O_ZEXT: if (e->a->w == 1) r = Z3_mk_ite(C(), B(e->a), zc(1, w), zc(0, w)); else r = Z3_mk_zero_ext(C(), w - e->a->w, B(e->a)); break;
  case O_SEXT: if (e->a->w == 1) r = Z3_mk_ite(C(), B(e->a), zc(maskw(w), w), zc(0, w)); else r = Z3_mk_sign_ext(C(), w - e->a->w, B(e->a)); break;
  case O_PW: {
    Z3_ast x = B(e->a); unsigned xw = e->a->w;
    r = pwTree(x, xw, *e->tab, 0, e->tab->starts.size(), w); break; }
  case O_DIGIT: r = digitVar(e->a, e->c & 255, e->c >> 8); B(e->a); break;
  case O_RND: r = zvar("rnd_" + std::to_string(e->id), 64); B(e->a); B(e->b); break;
  case O_FCMP: r = zvar("fcmp_" + std::to_string(e->id), 1); break;
  case O_FPRT: r = zvar("fprt_" + std::to_string(e->id), 64); break;
  default: fprintf(stderr, "toZ3: unsupported op %d\n", e->op); abort();
  }
  Z3_inc_ref(C(), r); e->z = r;
  return r;
}

static void sidesRec(E e, std::unordered_set<uint32_t> &seen, std::vector<Z3_ast> &out, std::vector<E> &rnds) {
  if (!e->hasRnd || !seen.insert(e->id).second) return;
  for (E x : {e->a, e->b, e->d}) if (x) sidesRec(x, seen, out, rnds);
  if (e->op == O_DIGIT) {
    unsigned nd = e->c >> 8;
    uint64_t key = ((uint64_t)e->a->id << 8) | nd;
    static std::unordered_map<uint64_t, Z3_ast> cache;
    auto it = cache.find(key);
    if (it != cache.end()) { out.push_back(it->second); return; }
    uint64_t P = pow10u(nd); unsigned W = bitlen(P) + 1; if (W > 64) W = 64; if (W < 9) W = 9;
    Z3_ast v = toZ3(e->a), s = zc(0, W); std::vector<Z3_ast> cs;
    for (unsigned k = 0; k < nd; k++) {
      Z3_ast d = digitVar(e->a, k, nd);
      cs.push_back(Z3_mk_bvule(C(), d, zc(9, 8)));
      s = Z3_mk_bvadd(C(), s, Z3_mk_bvmul(C(), Z3_mk_zero_ext(C(), W - 8, d), zc(pow10u(k), W)));
    }
    Z3_ast vw = ext(v, 64, W);
    cs.push_back(Z3_mk_implies(C(), Z3_mk_bvult(C(), v, zc(P, 64)), Z3_mk_eq(C(), vw, s)));
    Z3_ast r = Z3_mk_and(C(), cs.size(), cs.data()); Z3_inc_ref(C(), r);
    cache[key] = r; out.push_back(r);
  } else if (e->op == O_RND) {
    static std::unordered_map<uint32_t, Z3_ast> cache;
    rnds.push_back(e);
    auto it = cache.find(e->id);
    if (it != cache.end()) { out.push_back(it->second); return; }
    // |2*a*10^p - 2*r*b| <= b   within W bits, no overflow
    uint64_t P = pow10u(e->c);
    unsigned __int128 big = (unsigned __int128)e->a->hi * P * 2 + 4 * (unsigned __int128)(e->b->hi) * 2;
    unsigned W = 3; while (big) { W++; big >>= 1; } W += bitlen(e->b->hi);
    if (W > 120) W = 120;
    auto X = [&](Z3_ast q) { return ext(q, 64, W); };
    Z3_ast a = X(toZ3(e->a)), b = X(toZ3(e->b)), r = toZ3(e);
    Z3_ast rr = X(r);
    std::vector<Z3_ast> cs;
    cs.push_back(Z3_mk_bvule(C(), r, zc(e->hi, 64)));
    Z3_ast A = Z3_mk_bvmul(C(), a, zc(2 * P, W));
    Z3_ast Bm = Z3_mk_bvmul(C(), Z3_mk_bvmul(C(), rr, b), zc(2, W));
    Z3_ast both[2] = {Z3_mk_bvule(C(), A, Z3_mk_bvadd(C(), Bm, b)), Z3_mk_bvule(C(), Bm, Z3_mk_bvadd(C(), A, b))};
    cs.push_back(Z3_mk_implies(C(), Z3_mk_not(C(), Z3_mk_eq(C(), b, zc(0, W))), Z3_mk_and(C(), 2, both)));
    Z3_ast q = Z3_mk_and(C(), cs.size(), cs.data()); Z3_inc_ref(C(), q);
    cache[e->id] = q; out.push_back(q);
  }
}
void collectSides(E e, std::vector<Z3_ast> &out, std::vector<E> &rnds) {
  if (!e->hasRnd) return;
  std::unordered_set<uint32_t> seen; sidesRec(e, seen, out, rnds);
}

// ---- linear integer view: comparisons of sums that cannot wrap, over unbounded integers
static Z3_ast intVar(E e, Z3_solver s, std::unordered_set<uint32_t> &bounded) {
  Z3_sort is = Z3_mk_int_sort(g_z3->c);
  Z3_ast x = Z3_mk_const(g_z3->c, Z3_mk_string_symbol(g_z3->c, ("i" + std::to_string(e->id)).c_str()), is);
  if (bounded.insert(e->id).second) {
    Z3_solver_assert(g_z3->c, s, Z3_mk_ge(g_z3->c, x, Z3_mk_unsigned_int64(g_z3->c, e->lo, is)));
    Z3_solver_assert(g_z3->c, s, Z3_mk_le(g_z3->c, x, Z3_mk_unsigned_int64(g_z3->c, e->hi, is)));
  }
  return x;
}
static E stripZ(E e) { while (e->op == O_ZEXT) e = e->a; return e; }
static bool linForm(E e, LinT &t, uint64_t &c, int &size) {
  if (e->op != O_SLT && e->op != O_SLE && e->op != O_ULT && e->op != O_ULE && e->op != O_EQ) return false;
  unsigned w = e->a->w; if (w < 8) return false;
  if (e->op == O_ULT || e->op == O_ULE || (e->op == O_EQ && w < 64)) { if (e->a->hi >= 1ull << (w - 1) || e->b->hi >= 1ull << (w - 1)) return false; }
  else if (w < 64 && (e->a->hi >= 1ull << (w - 1) || e->b->hi >= 1ull << (w - 1))) return false;
  int budget = 400; c = 0; t.clear();
  LinT ta, tb; uint64_t ca = 0, cb = 0;
  if (!linColl(e->a, 1, ta, ca, budget) || !linColl(e->b, 1, tb, cb, budget)) return false;
  bool unsignedCmp = e->op == O_ULT || e->op == O_ULE || w < 64;
  auto okSide = [&](LinT &q, uint64_t k) {
    unsigned __int128 tot = (int64_t)k < 0 ? 0 - k : k;
    for (auto &p : q) { int64_t m = (int64_t)p.second; if (w < 64 && m < 0) return false; uint64_t am = m < 0 ? -m : m; if (am >> 40) return false; tot += (unsigned __int128)am * p.first->hi; }
    return tot < ((unsigned __int128)1 << (w == 64 ? 61 : w - 1)) || false;
  };
  if (!okSide(ta, ca) || !okSide(tb, cb)) return false;
  // an unsigned comparison of a difference needs the difference to be known non-negative: its interval says so only without subtraction
  if (unsignedCmp) { if ((int64_t)ca < 0 || (int64_t)cb < 0) return false; for (auto &p : ta) if ((int64_t)p.second < 0) return false; for (auto &p : tb) if ((int64_t)p.second < 0) return false; }
  for (auto &p : ta) t.push_back({stripZ(p.first), p.second}); for (auto &p : tb) t.push_back({stripZ(p.first), 0 - p.second});
  c = ca - cb; size = (int)t.size(); return true;
}
bool liaWorth(E e, int depth) { if (e->op == O_XOR && e->w == 1 && isC(e->b)) return liaWorth(e->a, depth); if (depth > 0 && e->w == 1 && (e->op == O_AND || e->op == O_OR)) return liaWorth(e->a, depth - 1) || liaWorth(e->b, depth - 1); LinT t; uint64_t c; int n; if (!linForm(e, t, c, n) || n < 2) return false; if (n > 2) return true; for (auto &p : t) if (p.second != 1 && p.second != ~0ull) return true; return false; }
static Z3_ast liaB(E e, Z3_solver s, std::unordered_set<uint32_t> &bounded, int depth) {
  Z3_context c0 = g_z3->c;
  if (isC(e)) return e->c ? Z3_mk_true(c0) : Z3_mk_false(c0);
  if (e->op == O_XOR && isC(e->b)) { Z3_ast x = liaB(e->a, s, bounded, depth); return e->b->c ? Z3_mk_not(c0, x) : x; }
  if (depth > 0 && (e->op == O_AND || e->op == O_OR)) { Z3_ast q[2] = {liaB(e->a, s, bounded, depth - 1), liaB(e->b, s, bounded, depth - 1)}; return e->op == O_AND ? Z3_mk_and(c0, 2, q) : Z3_mk_or(c0, 2, q); }
  LinT t; uint64_t c; int n;
  if (!linForm(e, t, c, n)) return Z3_mk_const(c0, Z3_mk_string_symbol(c0, ("b" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(c0));
  Z3_sort is = Z3_mk_int_sort(c0);
  std::vector<Z3_ast> sum; sum.push_back(Z3_mk_int64(c0, (int64_t)c, is));
  for (auto &p : t) { Z3_ast m[2] = {Z3_mk_int64(c0, (int64_t)p.second, is), intVar(p.first, s, bounded)}; sum.push_back(Z3_mk_mul(c0, 2, m)); }
  Z3_ast x = Z3_mk_add(c0, sum.size(), sum.data()), z = Z3_mk_int64(c0, 0, is);
  return e->op == O_EQ ? Z3_mk_eq(c0, x, z) : e->op == O_SLT || e->op == O_ULT ? Z3_mk_lt(c0, x, z) : Z3_mk_le(c0, x, z);
}
// true: the linear parts of pcs and extra contradict each other
bool liaUnsat(const std::vector<E> &pcs, E extra) {
  static Z3_solver s = 0;
  if (!s) { s = Z3_mk_solver_for_logic(g_z3->c, Z3_mk_string_symbol(g_z3->c, "QF_LIA")); Z3_solver_inc_ref(g_z3->c, s);
    Z3_params p = Z3_mk_params(g_z3->c); Z3_params_inc_ref(g_z3->c, p); Z3_params_set_uint(g_z3->c, p, Z3_mk_string_symbol(g_z3->c, "rlimit"), 3000000); Z3_solver_set_params(g_z3->c, s, p); }
  Z3_solver_reset(g_z3->c, s);
  std::unordered_set<uint32_t> bounded;
  Z3_solver_assert(g_z3->c, s, liaB(extra, s, bounded, 40));
  for (E e : pcs) Z3_solver_assert(g_z3->c, s, liaB(e, s, bounded, 40));
  return Z3_solver_check(g_z3->c, s) == Z3_L_FALSE;
}

// ---- real view: doubles as reals, integers that cannot wrap as reals; comparisons and printed digits leave room for rounding
static const char *F_CMP = "1/1000000000", *F_PRT = "501/1000";
struct Nra {
  Z3_context c; Z3_solver s; Z3_sort rs; int level; std::unordered_map<uint32_t, Z3_ast> memo; std::vector<std::pair<uint32_t, Z3_ast>> leaf; std::unordered_map<uint32_t, std::pair<__int128, __int128>> iv;
  Z3_ast num(const char *q) { return Z3_mk_numeral(c, q, rs); }
  Z3_ast fresh(const char *k, E e) { return Z3_mk_const(c, Z3_mk_string_symbol(c, (k + std::to_string(e->id)).c_str()), rs); }
  Z3_ast op(char k, Z3_ast a, Z3_ast b) { Z3_ast q[2] = {a, b}; return k == '+' ? Z3_mk_add(c, 2, q) : k == '-' ? Z3_mk_sub(c, 2, q) : Z3_mk_mul(c, 2, q); }
  void add(Z3_ast a) { Z3_solver_assert(c, s, a); }
  Z3_ast i64(int64_t v) { return Z3_mk_numeral(c, std::to_string(v).c_str(), rs); }
  // signed value of a 64-bit (or narrower, non-negative) integer term
  Z3_ast I(E e) {
    auto it = memo.find(e->id); if (it != memo.end()) return it->second;
    const __int128 LIM = (__int128)1 << 62; Z3_ast r = 0; __int128 lo = 0, hi = 0; auto at = [&](E x) { return iv[x->id]; };
    switch (e->op) {
    case O_CONST: { int64_t v = sextw(e->c, e->w); if (e->w < 64) v = e->c; lo = hi = v; r = i64(v); break; }
    case O_ZEXT: if (e->a->w > 1) { r = I(e->a); lo = at(e->a).first; hi = at(e->a).second; if (lo < 0) r = 0; } break;
    case O_SEXT: if (e->a->w > 1 && e->a->hi < 1ull << (e->a->w - 1)) { r = I(e->a); lo = at(e->a).first; hi = at(e->a).second; } break;
    case O_ADD: case O_SUB: case O_MUL: {
      Z3_ast a = I(e->a), b = I(e->b); auto x = at(e->a), y = at(e->b);
      if (e->op == O_ADD) { lo = x.first + y.first; hi = x.second + y.second; r = op('+', a, b); }
      else if (e->op == O_SUB) { lo = x.first - y.second; hi = x.second - y.first; r = op('-', a, b); }
      else { const __int128 M = (__int128)1 << 61; if (x.first < -M || x.second > M || y.first < -M || y.second > M) break; __int128 q[4] = {x.first * y.first, x.first * y.second, x.second * y.first, x.second * y.second}; lo = *std::min_element(q, q + 4); hi = *std::max_element(q, q + 4); r = op('*', a, b); }
      if (lo < -LIM || hi > LIM || (e->w < 64 && (lo < 0 || hi > (__int128)maskw(e->w)))) r = 0; break; }
    case O_ITE: { Z3_ast a = I(e->b), b = I(e->d); lo = std::min(at(e->b).first, at(e->d).first); hi = std::max(at(e->b).second, at(e->d).second); r = Z3_mk_ite(c, B(e->a), a, b); break; }
    default: break;
    }
    if (!r) { r = level > 2 ? Z3_mk_int2real(c, Z3_mk_const(c, Z3_mk_string_symbol(c, ("i" + std::to_string(e->id)).c_str()), Z3_mk_int_sort(c))) : fresh("n", e); lo = e->lo; hi = e->hi; if (e->w == 64 && e->hi >> 62) { lo = -((__int128)1 << 63); hi = ((__int128)1 << 63) - 1; } if (e->op == O_VAR) leaf.push_back({(uint32_t)e->c, r}); add(Z3_mk_ge(c, r, i64((int64_t)lo))); add(Z3_mk_le(c, r, i64((int64_t)hi)));
      if (e->op == O_RND && level > 1) { uint64_t P = pow10u(e->c); Z3_ast a = op('*', I(e->a), i64(2 * P)), b = I(e->b), k = op('*', op('*', r, b), i64(2)); add(Z3_mk_le(c, a, op('+', k, b))); add(Z3_mk_le(c, k, op('+', a, b))); }
      if (e->op == O_FPRT) { uint64_t P = pow10u(e->c); Z3_ast d = op('-', op('*', R(e->a), i64(P)), r); add(Z3_mk_le(c, d, num(F_PRT))); add(Z3_mk_ge(c, d, op('-', i64(0), num(F_PRT)))); } }
    iv[e->id] = {lo, hi}; memo[e->id] = r; return r;
  }
  Z3_ast R(E e) { // a double
    auto it = memo.find(e->id ^ 0x80000000u); if (it != memo.end()) return it->second;
    Z3_ast r;
    switch (e->op) {
    case O_CONST: { double x = DD(e->c); int ex; double f = frexp(x, &ex); int64_t mant = (int64_t)ldexp(f, 53); ex -= 53; while (mant && !(mant & 1) && ex < 0) { mant /= 2; ex++; } 
      if (!std::isfinite(x) || ex < -1000 || ex > 300) { r = fresh("k", e); break; } std::string one = "1"; auto dbl = [](std::string q) { std::string o; int cy = 0; for (int i = (int)q.size() - 1; i >= 0; i--) { int v = (q[i] - '0') * 2 + cy; o.insert(o.begin(), '0' + v % 10); cy = v / 10; } if (cy) o.insert(o.begin(), '0' + cy); return o; };
      for (int i = 0; i < (ex < 0 ? -ex : ex); i++) one = dbl(one); r = ex < 0 ? num((std::to_string(mant) + "/" + one).c_str()) : op('*', i64(mant), num(one.c_str())); break; }
    case O_FRAT: { if (isC(e->b)) { r = op('*', I(e->a), num(("1/" + std::to_string((int64_t)e->b->c)).c_str())); break; } r = fresh("t", e); if (level > 1) add(Z3_mk_eq(c, op('*', r, I(e->b)), I(e->a))); break; }
    case O_ITE: r = Z3_mk_ite(c, B(e->a), R(e->b), R(e->d)); break;
    case O_FOP: { Z3_ast a = R(e->a); if (e->c == 5) { r = a; break; }
      if (e->c == 4) { r = fresh("s", e); add(Z3_mk_ge(c, r, i64(0))); add(Z3_mk_or_(a, r)); break; }
      Z3_ast b = R(e->b); if (e->c < 3) { r = op("+-*"[e->c], a, b); break; }
      r = fresh("q", e); if (isC(e->b) && DD(e->b->c) != 0) r = op('*', a, Z3_mk_div(c, i64(1), b)); else if (level > 0) add(Z3_mk_eq(c, op('*', r, b), a)); break; }
    default: r = fresh("d", e);
    }
    memo[e->id ^ 0x80000000u] = r; return r;
  }
  Z3_ast Z3_mk_or_(Z3_ast a, Z3_ast r) { Z3_ast q[2] = {Z3_mk_lt(c, a, i64(0)), Z3_mk_eq(c, op('*', r, r), a)}; return Z3_mk_or(c, 2, q); }
  Z3_ast B(E e) { return Bp(e, true, true); }
  // a formula that is true whenever e is (pos), or whenever it is not (neg), for some rounding
  Z3_ast Bp(E e, bool pos, bool neg) {
    if (isC(e)) return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
    if (e->op == O_XOR && e->w == 1 && isC(e->b)) { Z3_ast x = Bp(e->a, neg, pos); return e->b->c ? Z3_mk_not(c, x) : Bp(e->a, pos, neg); }
    if ((e->op == O_AND || e->op == O_OR) && e->w == 1) { Z3_ast q[2] = {Bp(e->a, pos, neg), Bp(e->b, pos, neg)}; return e->op == O_AND ? Z3_mk_and(c, 2, q) : Z3_mk_or(c, 2, q); }
    if (e->op == O_FCMP) { // one truth value per comparison, which the reals bound up to rounding
      auto it = memo.find(e->id); if (it != memo.end()) return it->second;
      Z3_ast b = Z3_mk_const(c, Z3_mk_string_symbol(c, ("c" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(c)); memo[e->id] = b;
      Z3_ast d = op('-', R(e->a), R(e->b)), ep = num(F_CMP), mn = op('-', i64(0), ep);
      if (e->c == 2) { Z3_ast q[2] = {Z3_mk_le(c, d, ep), Z3_mk_ge(c, d, mn)}; add(Z3_mk_implies(c, b, Z3_mk_and(c, 2, q))); }
      else { add(Z3_mk_implies(c, b, Z3_mk_le(c, d, ep))); add(Z3_mk_implies(c, Z3_mk_not(c, b), Z3_mk_ge(c, d, mn))); }
      return b;
    }
    if (e->op == O_ITE && e->w == 1) return Z3_mk_ite(c, B(e->a), Bp(e->b, pos, neg), Bp(e->d, pos, neg));
    bool ints = pos != neg && (e->op == O_EQ || e->op == O_ULT || e->op == O_ULE || e->op == O_SLT || e->op == O_SLE) && e->a->w > 1;
    if (ints) { Z3_ast a = I(e->a), b = I(e->b); auto x = iv[e->a->id], y = iv[e->b->id]; bool ok = e->op == O_SLT || e->op == O_SLE ? e->a->w == 64 : (x.first >= 0 && y.first >= 0) || (e->op == O_EQ && e->a->w == 64);
      if (ok) { // whole numbers: differ by at least one where they differ
        Z3_ast a1 = op('+', a, i64(1)), b1 = op('+', b, i64(1));
        if (e->op == O_EQ) { if (pos) return Z3_mk_eq(c, a, b); Z3_ast q[2] = {Z3_mk_lt(c, b, a1), Z3_mk_lt(c, a, b1)}; return Z3_mk_and(c, 2, q); }
        bool lt = e->op == O_SLT || e->op == O_ULT; return lt ? (pos ? Z3_mk_le(c, a1, b) : Z3_mk_lt(c, a, b)) : pos ? Z3_mk_le(c, a, b) : Z3_mk_lt(c, a, b1); } }
    return Z3_mk_const(c, Z3_mk_string_symbol(c, ("b" + std::to_string(e->id)).c_str()), Z3_mk_bool_sort(c));
  }
};
int nraCheck(const std::vector<E> &es, int level, std::vector<std::pair<uint32_t, int64_t>> *cand) {
  Nra n; n.c = g_z3->c; n.rs = Z3_mk_real_sort(n.c); n.level = level;
  n.s = level > 2 ? Z3_mk_simple_solver(n.c) : Z3_mk_solver_for_logic(n.c, Z3_mk_string_symbol(n.c, "QF_NRA")); Z3_solver_inc_ref(n.c, n.s);
  Z3_params p = Z3_mk_params(n.c); Z3_params_inc_ref(n.c, p); Z3_params_set_uint(n.c, p, Z3_mk_string_symbol(n.c, "timeout"), level > 1 ? 25000 : 10000); Z3_solver_set_params(n.c, n.s, p); Z3_params_dec_ref(n.c, p);
  for (E e : es) n.add(n.Bp(e, true, false));
  Z3_lbool r = Z3_solver_check(n.c, n.s); 
  if (getenv("SYMIR_NRA")) fprintf(stderr, "NRA level %d -> %d\n%s\n", level, r, r != Z3_L_FALSE ? Z3_solver_to_string(n.c, n.s) : "");
  if (r == Z3_L_TRUE && cand) {
    Z3_model m = Z3_solver_get_model(n.c, n.s); Z3_model_inc_ref(n.c, m);
    for (auto &l : n.leaf) {
      Z3_ast v = 0; if (!Z3_model_eval(n.c, m, l.second, true, &v) || !v) continue;
      std::string t = Z3_get_numeral_decimal_string(n.c, v, 3); double x = atof(t.c_str()); cand->push_back({l.first, (int64_t)llround(x)});
    }
    Z3_model_dec_ref(n.c, m);
  }
  Z3_solver_dec_ref(n.c, n.s); return r == Z3_L_FALSE ? 0 : r == Z3_L_TRUE ? 1 : -1;
}
