/* alignment of texts (sync.c) over arbitrary character values */
#include "util.h"
#include "sync.h"
#define W 20
#define K 16
static Text text[K]; static unsigned v[K][W]; static int n[K]; static int nt; static Synclist sl, sl2;
static unsigned val(const char *nm) {
  switch (sym_param("alpha", 0)) {
  case 0: return sym_u32(nm);
  case 1: return 'a' + sym_range(nm, 0, 1);
  case 2: return 'a' + sym_range(nm, 0, 2);
  case 3: { unsigned k = sym_range(nm, 0, 2); return sym_ite(k == 2, '~', 'a' + k); }
  default: { unsigned k = sym_u32(nm); sym_assume(k != '~'); return k; }
  }
}
static void mk(int t) { int i; for (i = 0; i < n[t]; i++) append_char(&text[t], 0, v[t][i]); }
static void fresh(int t, long lo, long hi) { char nm[4], ln[8]; int i; nm[0] = 'a' + t; nm[1] = 0; ln[0] = 'n'; ln[1] = 'a' + t; ln[2] = 0; n[t] = symlen(ln, lo, hi); for (i = 0; i < n[t]; i++) v[t][i] = val(nm); mk(t); }
static void copy(int t, int f) { int i; n[t] = n[f]; for (i = 0; i < n[f]; i++) v[t][i] = v[f][i]; mk(t); }
#define EQ(a, b) (((a) == (b)) & ((a) != '~'))
static long dist2(int p, int q, int a0, int an, int b0, int bn) {
  static long d[W][W]; int i, j;
  for (i = 0; i <= an; i++) for (j = 0; j <= bn; j++)
    if (!i) d[i][j] = j; else if (!j) d[i][j] = i;
    else d[i][j] = sym_min(d[i - 1][j - 1] + !EQ(v[p][a0 + i - 1], v[q][b0 + j - 1]), sym_min(d[i - 1][j], d[i][j - 1]) + 1);
  return d[an][bn];
}
/* length of the longest common passage without wildcards */
static long lcsub(int p, int q) {
  static long e[W][W]; long best = 0; int i, j;
  for (i = 1; i <= n[p]; i++) for (j = 1; j <= n[q]; j++) {
    e[i][j] = sym_ite(EQ(v[p][i - 1], v[q][j - 1]), 1 + (i > 1 && j > 1 ? e[i - 1][j - 1] : 0), 0);
    best = sym_max(best, e[i][j]);
  }
  return best;
}
/* partition, identical matches, numbering */
static long partition(Synclist *s, Text *tx, unsigned (*vv)[W], int *nn, int k, int numbered) {
  Sync *y; int t, i; long pos[K], num = 0, cnt = 0, prevm = 0;
  for (t = 0; t < k; t++) { pos[t] = 0; }
  for (y = s->first; y; y = y->next) {
    long mx = 0; cnt++;
    if (y->next) sym_assert(y->next->prev == y, "segment links"); else sym_assert(s->last == y, "last segment");
    for (t = 0; t < k; t++) {
      sym_assert(y->substr[t].start == pos[t], "segments follow each other");
      sym_assert(y->substr[t].length >= 0 && y->substr[t].stop == y->substr[t].start + y->substr[t].length - 1, "segment bounds");
      pos[t] += y->substr[t].length; if (y->substr[t].length > mx) mx = y->substr[t].length;
    }
    sym_assert(mx > 0, "no empty segment");
    if (y->match) {
      num++; if (numbered) sym_assert(*y->match == num, "matches numbered in order");
      for (t = 0; t < k; t++) { sym_assert(y->substr[t].length == mx, "matched segment has one length"); for (i = 0; i < mx; i++) sym_assert(EQ(vv[t][y->substr[t].start + i], vv[0][y->substr[0].start + i]), "matched characters are identical and no wildcard"); }
    }
  }
  for (t = 0; t < k; t++) { sym_assert(pos[t] == nn[t], "segments cover the text"); sym_assert(tx[t].count == nn[t], "text kept"); for (i = 0; i < nn[t]; i++) sym_assert(tx[t].array[i]->value == vv[t][i], "text unchanged"); }
  sym_assert(s->count == cnt, "segment count");
  return num;
}
static void m_two(void) {
  Sync *y; long cost = 0; int pm = -1;
  fresh(0, sym_param("nmin", 0), sym_param("nmax", 3)); fresh(1, sym_param("mmin", 0), sym_param("mmax", 3));
  fastukk_sync(&sl, text);
  partition(&sl, text, v, n, 2, 1);
  for (y = sl.first; y; y = y->next) { if (!y->match) cost += y->substr[0].length > y->substr[1].length ? y->substr[0].length : y->substr[1].length; sym_assert((y->match != 0) != pm, "matches and differences alternate"); pm = y->match != 0; }
  sym_assert(cost == dist2(0, 1, 0, n[0], 0, n[1]), "cost = edit distance");
  sym_reach("done");
}
static void m_many(void) {
  int i, t, j, k = sym_param("k", 2), shape = sym_param("shape", 0); Sync *y, *y2;
  nt = k;
  for (t = 0; t < k; t++) {
    int f = -1;
    if (shape == 1 && t > 0) f = 0;                          /* all copies */
    if (shape == 2 && t > 0 && t < k - 1) f = 0;             /* A A .. A B */
    if (shape == 3 && t > 1) f = 1;                          /* A B .. B */
    if (f >= 0) copy(t, f); else fresh(t, sym_param("nmin", 0), sym_param("nmax", 3));
  }
  synchronize(&sl, k, text);
  partition(&sl, text, v, n, k, 1);
  if (shape == 1) { sym_assert(n[0] == 0 ? sl.count == 0 : (sl.count == 1 && sl.first->match), "copies give a single match"); sym_reach("done"); return; }
  if (k == 2) {
    long L = lcsub(0, 1), best = 0;
    for (y = sl.first; y; y = y->next)
      if (y->match) { if (y->substr[0].length > best) best = y->substr[0].length; }
      else for (i = y->substr[0].start; i <= y->substr[0].stop; i++) for (j = y->substr[1].start; j <= y->substr[1].stop; j++) sym_assert(!EQ(v[0][i], v[1][j]), "no shared character in a difference");
    sym_assert(best == L, "longest common passage is matched");
  }
  if (shape >= 2) { /* copies do not change the alignment of the two texts */
    static Text tw[2]; static unsigned w[2][W]; int o = shape == 2 ? k - 1 : 1;
    for (i = 0; i < n[0]; i++) append_char(&tw[0], 0, v[0][i]); for (i = 0; i < n[o]; i++) append_char(&tw[1], 0, v[o][i]);
    synchronize(&sl2, 2, tw);
    sym_assert(sl.count == sl2.count, "same segments with copies");
    for (y = sl.first, y2 = sl2.first; y; y = y->next, y2 = y2->next) { sym_assert(!y->match == !y2->match, "same kind of segment"); sym_assert(y->substr[0].length == y2->substr[0].length && y->substr[o].length == y2->substr[1].length, "same segments as for two texts"); }
  }
  sym_reach("done");
}
static void m_move(void) {
  Sync *y, *z; int i, j; long k1, k2, best = 0; static int in1[W], in2[W];
  fresh(0, sym_param("nmin", 0), sym_param("nmax", 3)); fresh(1, sym_param("mmin", 0), sym_param("mmax", 3));
  transpose_sync(&sl, &sl2, &text[0], &text[1]);
  k1 = partition(&sl, text, v, n, 1, 1); k2 = partition(&sl2, text + 1, v + 1, n + 1, 1, 0);
  sym_assert(k1 == k2, "as many blocks in both texts");
  for (y = sl.first; y; y = y->next) if (y->match) {
    int c = 0;
    if (y->substr->length > best) best = y->substr->length;
    for (z = sl2.first; z; z = z->next) if (z->match && *z->match == *y->match) {
      c++; sym_assert(y->substr->length == z->substr->length, "paired blocks have one length");
      for (i = 0; i < y->substr->length; i++) { sym_assert(EQ(v[0][y->substr->start + i], v[1][z->substr->start + i]), "paired blocks are identical, no wildcard"); in1[y->substr->start + i] = 1; in2[z->substr->start + i] = 1; }
    }
    sym_assert(c == 1, "each block has one partner");
  }
  /* matched occurrences of a character = the smaller of its counts */
  for (i = 0; i < n[0]; i++) {
    long c1 = 0, c2 = 0, m1 = 0;
    for (j = 0; j < n[0]; j++) { c1 += EQ(v[0][i], v[0][j]); if (in1[j]) m1 += EQ(v[0][i], v[0][j]); }
    for (j = 0; j < n[1]; j++) c2 += EQ(v[0][i], v[1][j]);
    sym_assert(m1 == sym_min(c1, c2), "every shared character is matched");
  }
  sym_assert(best == lcsub(0, 1), "longest common block is matched");
  sym_reach("done");
}
void harness_main(void) { switch (sym_param("mode", 0)) { case 0: m_two(); break; case 1: m_many(); break; default: m_move(); } }
