// symir: memory, frames, states
#pragma once
#include "expr.h"
#include <map>
#include <set>
#include <unordered_set>

struct Val { uint64_t v; E e; };
static inline Val cv(uint64_t v) { return Val{v, nullptr}; }

static const uint64_t PTR_BIAS = 0x40000000ull;
static const unsigned PAGE = 4096;
static inline uint64_t mkAddr(uint32_t id, uint64_t off) { return ((uint64_t)id << 32) + PTR_BIAS + off; }

struct Page {
  uint32_t rc, len; uint8_t *d; E *sym; uint8_t *un;
  static Page *make(uint32_t len) { Page *p = (Page *)malloc(sizeof(Page)); p->rc = 1; p->len = len; p->d = (uint8_t *)calloc(1, len); p->sym = 0; p->un = 0; return p; }
  Page *clone() const {
    Page *p = (Page *)malloc(sizeof(Page)); p->rc = 1; p->len = len; p->d = (uint8_t *)malloc(len); memcpy(p->d, d, len);
    p->sym = 0; p->un = 0;
    if (sym) { p->sym = (E *)malloc(len * sizeof(E)); memcpy(p->sym, sym, len * sizeof(E)); }
    if (un) { p->un = (uint8_t *)malloc(len); memcpy(p->un, un, len); }
    return p;
  }
  void unref() { if (--rc == 0) { ::free(d); ::free(sym); ::free(un); ::free(this); } }
  void needSym() { if (!sym) sym = (E *)calloc(len, sizeof(E)); }
};
struct LogEnt { E off; unsigned n; Val v; };
enum ObjKind : uint8_t { K_GLOBAL, K_HEAP, K_STACK, K_CONST, K_FILE, K_FUNC, K_EXT };
struct Obj {
  uint32_t rc; uint64_t size; ObjKind kind; bool uninit; uint32_t np; Page **pg; std::vector<LogEnt> log;
  static Obj *make(uint64_t size, ObjKind k, bool uninit) {
    Obj *o = new Obj(); o->rc = 1; o->size = size; o->kind = k; o->uninit = uninit; o->np = (size + PAGE - 1) / PAGE; o->pg = o->np ? (Page **)calloc(o->np, sizeof(Page *)) : 0; return o;
  }
  Obj *clone() const {
    Obj *o = new Obj(); o->rc = 1; o->size = size; o->kind = kind; o->uninit = uninit; o->np = np; o->log = log;
    o->pg = np ? (Page **)malloc(np * sizeof(Page *)) : 0;
    for (uint32_t i = 0; i < np; i++) { o->pg[i] = pg[i]; if (pg[i]) pg[i]->rc++; }
    return o;
  }
  void unref() { if (--rc == 0) { for (uint32_t i = 0; i < np; i++) if (pg[i]) pg[i]->unref(); ::free(pg); delete this; } }
  uint32_t pageLen(uint32_t i) const { return i + 1 < np ? PAGE : (uint32_t)(size - (uint64_t)i * PAGE); }
  Page *pageW(uint32_t i) {
    if (!pg[i]) { pg[i] = Page::make(pageLen(i)); if (uninit) { pg[i]->un = (uint8_t *)malloc(pg[i]->len); memset(pg[i]->un, 1, pg[i]->len); } }
    else if (pg[i]->rc > 1) { Page *q = pg[i]->clone(); pg[i]->rc--; pg[i] = q; }
    return pg[i];
  }
  void resize(uint64_t ns) { // files only
    uint32_t nn = (ns + PAGE - 1) / PAGE;
    if (nn != np) {
      Page **q = (Page **)calloc(nn ? nn : 1, sizeof(Page *));
      for (uint32_t i = 0; i < np; i++) { if (i < nn) q[i] = pg[i]; else if (pg[i]) pg[i]->unref(); }
      ::free(pg); pg = q; np = nn;
    }
    size = ns;
  }
};
struct Chunk { uint32_t rc; Obj *o[64]; };
struct Mem {
  std::vector<Chunk *> t;
  Mem() {}
  Mem(const Mem &m) : t(m.t) { for (auto c : t) if (c) c->rc++; }
  Mem &operator=(const Mem &) = delete;
  static void unrefChunk(Chunk *c) { if (c && --c->rc == 0) { for (auto o : c->o) if (o) o->unref(); delete c; } }
  ~Mem() { for (auto c : t) unrefChunk(c); }
  Obj *r(uint32_t id) const { uint32_t k = id >> 6; if (k >= t.size() || !t[k]) return nullptr; return t[k]->o[id & 63]; }
  Chunk *chunkW(uint32_t k) {
    if (k >= t.size()) t.resize(k + 1, nullptr);
    Chunk *c = t[k];
    if (!c) { c = new Chunk(); c->rc = 1; memset(c->o, 0, sizeof c->o); t[k] = c; }
    else if (c->rc > 1) { Chunk *d = new Chunk(); d->rc = 1; for (int i = 0; i < 64; i++) { d->o[i] = c->o[i]; if (d->o[i]) d->o[i]->rc++; } c->rc--; t[k] = c = d; }
    return c;
  }
  void set(uint32_t id, Obj *o) { Chunk *c = chunkW(id >> 6); if (c->o[id & 63]) c->o[id & 63]->unref(); c->o[id & 63] = o;
    if (!o) { bool any = false; for (auto x : c->o) if (x) { any = true; break; } if (!any) { unrefChunk(c); t[id >> 6] = nullptr; } } }
  Obj *w(uint32_t id) {
    Chunk *c = chunkW(id >> 6); Obj *o = c->o[id & 63];
    if (o && o->rc > 1) { Obj *q = o->clone(); o->rc--; c->o[id & 63] = q; o = q; }
    return o;
  }
};

struct DFunc;
struct Frame { DFunc *f; uint32_t pc; uint32_t base; uint32_t allocBase; int boundary; /*0 none,1 exec,2 catch*/ int dest; };

struct PC { // path condition node (persistent list)
  uint32_t rc; E e; PC *prev; uint32_t depth;
};
struct FileEnt { std::string name; uint32_t obj; bool exists; };
struct OpenFile { uint32_t handle; std::string name; uint64_t pos; bool rd, wr, append, open, eof; };
struct ExecCtx { std::string tool; uint32_t firstObj; std::vector<OpenFile> saved; uint32_t savedStdinPos; int module; };

struct State {
  uint64_t id; 
  std::vector<Val> loc; std::vector<Frame> fr; std::vector<uint32_t> allocas;
  Mem mem; uint32_t nextObj;
  PC *pc; std::unordered_map<uint32_t, bool> known; Model model;
  std::map<std::string, int> occ; // symbolic name occurrences
  std::vector<std::pair<std::string, E>> syms; // in creation order
  std::vector<FileEnt> files; std::vector<OpenFile> open;
  std::vector<ExecCtx> execs;
  uint64_t instrs; uint64_t budgetStart; uint32_t forks; uint32_t uninitCtr; uint32_t concretizations;
  std::vector<Val> statuses;
  State() : pc(nullptr) {}
  State(const State &o) : id(o.id), loc(o.loc), fr(o.fr), allocas(o.allocas), mem(o.mem), nextObj(o.nextObj), pc(o.pc), known(o.known), model(o.model), occ(o.occ), syms(o.syms), files(o.files), open(o.open), execs(o.execs), instrs(o.instrs), budgetStart(o.budgetStart), forks(o.forks), uninitCtr(o.uninitCtr), concretizations(o.concretizations), statuses(o.statuses) { if (pc) pc->rc++; }
  ~State() { unrefPC(pc); }
  static void unrefPC(PC *p) { while (p && --p->rc == 0) { PC *q = p->prev; delete p; p = q; } }
  void addPC(E e) { PC *n = new PC{1, e, pc, pc ? pc->depth + 1 : 1}; pc = n; }
};
