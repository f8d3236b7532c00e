// symir: hash-consed bit-vector expression DAG with simplification, unsigned
// intervals, native evaluation and Z3 translation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

enum Op : uint8_t {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT,
  O_PW,      // piecewise constant function of operand a (table)
  O_DIGIT,   // k-th decimal digit (as 8-bit value 0..9) of 64-bit a; aux = k | nd<<8 ; requires a < 10^nd
  O_RND,     // round(a*10^p/b) for non-negative a, positive b, as printf("%.pf", (double)a/(double)b); aux=p
  O_FRAT,    // floating point: correctly rounded double nearest to a/b (signed 64-bit ints, b>0)
  O_FOP,     // floating point operation on doubles; c: 0 add 1 sub 2 mul 3 div 4 sqrt 5 the value itself, a choice (4, 5: a only)
  O_FCMP,    // comparison of doubles; c: 0 less 1 less or equal 2 equal
  O_FPRT     // round(a*10^p) for a non-negative double, as printf("%.pf"); aux=p
};

struct PWTab {
  // runs: value vals[i] for starts[i] <= x < starts[i+1]; starts[0]==0
  std::vector<uint64_t> starts, vals;
  uint64_t lookup(uint64_t x) const {
    size_t lo = 0, hi = starts.size();
    while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (starts[m] <= x) lo = m; else hi = m; }
    return vals[lo];
  }
};

struct Expr;
typedef const Expr *E;
struct Expr {
  Op op; uint8_t w; bool taint; bool hasRnd; bool hasF;
  uint32_t id;
  uint64_t c;                 // const value / var index / extract lo / aux
  const Expr *a, *b, *d;
  const PWTab *tab;
  uint64_t lo, hi;            // unsigned interval
  mutable uint64_t ev; mutable uint64_t evEpoch;
  mutable Z3_ast z;
  E canon;                    // equivalent simpler expression, or null
};
static inline uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : ((1ull << w) - 1); }
static inline int64_t sextw(uint64_t v, unsigned w) { return w >= 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; uint64_t lo, hi; bool taint; };
extern std::vector<VarInfo> g_vars;

struct Model { // assignment by var index; missing -> lo of var
  std::vector<uint64_t> v;
  uint64_t get(uint32_t i) const { return i < v.size() ? v[i] : g_vars[i].lo; }
  void set(uint32_t i, uint64_t x) { while (v.size() <= i) v.push_back(g_vars[v.size()].lo); v[i] = x; }
};

E mkConst(uint64_t v, unsigned w);
E mkVar(const std::string &name, unsigned w, uint64_t lo, uint64_t hi, bool taint = false);
E mkBin(Op op, E a, E b);
E mkNot(E a);            // width-1 negation
E mkIte(E c, E t, E f);
E mkConcat(E hi, E lo);
E mkExtract(E a, unsigned lo, unsigned w);
E mkExtractRaw(E a, unsigned lo, unsigned w);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkPW(const std::vector<uint64_t> &starts, const std::vector<uint64_t> &vals, E x, unsigned w);
E mkDigit(E v, unsigned k, unsigned nd);
E mkRnd(E a, E b, unsigned p);
E mkFrat(E a, E b);
E mkFop(unsigned k, E a, E b);
E mkFcmp(unsigned k, E a, E b);
E mkFprt(E a, unsigned p);
static inline E mkEq(E a, E b) { return mkBin(O_EQ, a, b); }
static inline E mkUlt(E a, E b) { return mkBin(O_ULT, a, b); }
static inline E mkUle(E a, E b) { return mkBin(O_ULE, a, b); }
static inline E mkSlt(E a, E b) { return mkBin(O_SLT, a, b); }
static inline E mkSle(E a, E b) { return mkBin(O_SLE, a, b); }
static inline bool isC(E e) { return e->op == O_CONST; }

void evalNewModel();                  // bump epoch
uint64_t evalExpr(E e, const Model &m);// evaluates in current epoch
uint64_t nativeRnd(uint64_t a, uint64_t b, unsigned p);
std::string exprStr(E e, int depth = 4);

// z3
struct ZCtx { Z3_context c; operator Z3_context() const { return c; } };
extern ZCtx *g_z3;
Z3_ast toZ3(E e);
extern std::vector<std::pair<E, Z3_ast>> g_sideOf; // side conditions by defining expr (not path specific)
void collectSides(E e, std::vector<Z3_ast> &out, std::vector<E> &rnds);
std::string smtName(E);
bool liaWorth(E e, int depth = 8);
int nraCheck(const std::vector<E> &es, int level, std::vector<std::pair<uint32_t, int64_t>> *cand); // 0 no, 1 maybe, -1 open
bool liaUnsat(const std::vector<E> &pcs, E extra);
