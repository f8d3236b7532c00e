/* editop CORRECT GENERATED REPORT against multiset counts and a reference of the documented move reduction */
#include "util.h"
#include <stdio.h>
#define W 300
#define DASH "-----------------------------------------\n"
static const char *alpha(long k) { switch (k) { case 0: return "abc"; case 1: return "ab~"; case 2: return "ab \n"; case 3: return "ab^~"; case 4: return "abcd"; case 6: return "abcde"; case 7: return "abcdef"; default: return "ab"; } }
static struct otext a, b;
static int na, nb, ua[W], ub[W];                 /* block id per position, 0 unmatched */
static int ord[W], len[W], nblk;                 /* blocks in the order of the correct text; by id */
static void blocks(void) {
  int id = 0, i, j, L, bi, bj, best;
  for (;;) {
    best = 0;
    for (i = 0; i < na; i++) for (j = 0; j < nb; j++) {
      for (L = 0; i + L < na && j + L < nb && !ua[i + L] && !ub[j + L] && a.c[i + L] == b.c[j + L] && a.c[i + L] != '~'; L++) ;
      /* ties: the earlier unmatched stretch of the correct text, then of the generated text, then the earlier position */
      if (L > best) { best = L; bi = i; bj = j; }
      else if (L == best && L > 0) {
        /* same stretch pair comes first in order of positions; stretches are ordered by position as well */
        int k, s1 = 0, s2 = 0;
        for (k = bi; k < i; k++) if (ua[k]) s1 = 1;
        for (k = bj < j ? bj : j; k < (bj < j ? j : bj); k++) if (ub[k]) s2 = 1;
        if (!s1 && s2 && j < bj) { bi = i; bj = j; }
      }
    }
    if (!best) break;
    id++; len[id] = best; for (L = 0; L < best; L++) { ua[bi + L] = id; ub[bj + L] = id; }
  }
  nblk = id;
}
static long rows[128]; static long moves;
static void reduce(void) {
  int seq[W], l[W], n = 0, num[W], i, j, last = 0, k = 0;
  /* number blocks by the correct text, list them by the generated text */
  for (i = 0; i < na; i++) if (ua[i] && ua[i] != last) { num[ua[i]] = ++k; last = ua[i]; } else if (!ua[i]) last = 0;
  last = 0;
  for (i = 0; i < nb; i++) if (ub[i] && ub[i] != last) { seq[n] = num[ub[i]]; l[n++] = len[ub[i]]; last = ub[i]; } else if (!ub[i]) last = 0;
  for (;;) {
    int best = 0, at = -1, blen = 0, x;
    for (i = 0; i + 1 < n; ) /* join neighbours that follow each other */
      if (seq[i + 1] == seq[i] + 1) { l[i] += l[i + 1]; for (j = i + 1; j + 1 < n; j++) { seq[j] = seq[j + 1]; l[j] = l[j + 1]; } n--; for (j = 0; j < n; j++) if (seq[j] > seq[i]) seq[j]--; }
      else i++;
    if (n <= 1) break;
    for (x = 1; x <= n; x++) { /* block x: 1 for going home, 1 if it fits between neighbours that wait for it, 1 if its neighbours join when it leaves */
      int p = 0, r = 1; while (seq[p] != x) p++;
      for (i = 0; i + 1 < n; i++) if (seq[i] == x - 1 && seq[i + 1] == x + 1) r++;
      if (p > 0 && p + 1 < n && seq[p + 1] == seq[p - 1] + 1) r++;
      if (r > best || (r == best && l[p] < blen)) { best = r; at = p; blen = l[p]; }
    }
    { int s = seq[at], ll = l[at], to;
      moves++; rows[ll < 100 ? ll : 100]++;
      for (j = at; j + 1 < n; j++) { seq[j] = seq[j + 1]; l[j] = l[j + 1]; }
      for (to = 0; to < n - 1; to++) if (s == 1 ? seq[to] == 2 : seq[to] == s - 1) break;
      if (s != 1) to++;
      for (j = n - 1; j > to; j--) { seq[j] = seq[j - 1]; l[j] = l[j - 1]; }
      seq[to] = s; l[to] = ll; }
  }
}
static void put(unsigned char *d, int *k, int c, int rep) { while (rep--) d[(*k)++] = c; }
void harness_main(void) {
  static unsigned char x[W], y[W]; static char buf[6000]; char *p; long L, ins = 0, del = 0, i, j, tot = 0, rlen; int n = 0, m = 0;
  const char *A = alpha(sym_param("alpha", 0)); int rep = sym_param("rep", 1), out = sym_param("out", 1);
  int nn = symlen("n", sym_param("nmin", 0), sym_param("nmax", 3)), mm = symlen("m", sym_param("mmin", 0), sym_param("mmax", 3));
  /* rep > 1: the first character class stands for a run of rep characters */
  if (sym_param("nb", 0)) { /* nb blocks of distinct letters and symbolic lengths, in every order */
    int nb = sym_param("nb", 0), lmin = sym_param("lmin", 1), lmax = sym_param("lmax", 2), st[9], ln[9], used[9], k; char c = 'A';
    for (i = 0; i < nb; i++) { st[i] = n; used[i] = 0; ln[i] = sym_param("blk", 0) ? ("31213122"[i] - '0') : sym_conc(sym_range("len", lmin, lmax)); for (k = 0; k < ln[i]; k++) x[n++] = c++; }
    for (i = 0; i < nb; i++) {
      int at = sym_conc(sym_range("at", 0, nb - 1 - i)); for (j = 0; ; j++) if (!used[j] && at-- == 0) break;
      used[j] = 1; memcpy(y + m, x + st[j], ln[j]); m += ln[j]; }
    nn = mm = 0;
  }
  for (i = 0; i < nn; i++) { unsigned char c = sym_param("fix", 0) ? 'a' + i : pick("x", A); if (rep > 1) c = sym_conc(c); put(x, &n, c, rep > 1 && c == 'a' ? rep : 1); }
  for (i = 0; i < mm; i++) { unsigned char c = pick("y", A); if (rep > 1) c = sym_conc(c); put(y, &m, c, rep > 1 && c == 'a' ? rep : 1); }
  sym_file("c", x, n); sym_file("g", y, m);
  sym_assert((out ? run3("editop", "c", "g", "r") : run2("editop", "c", "g")) == 0, "exit status");
  if (rep == 1) { oread(&a, x, n, 1, 1, 0); oread(&b, y, m, 1, 1, 0); } else { a.n = n; b.n = m; memcpy(a.c, x, n); memcpy(b.c, y, m); }
  na = a.n; nb = b.n;
  for (i = 0; i < na; i++) { long c1 = 0, c2 = 0; if (a.c[i] == '~') continue; for (j = 0; j <= i; j++) c1 += a.c[j] == a.c[i]; for (j = 0; j < nb; j++) c2 += b.c[j] == a.c[i]; ins += c1 > c2; }
  for (i = 0; i < nb; i++) { long c1 = 0, c2 = 0; for (j = 0; j <= i; j++) c1 += b.c[j] == b.c[i]; for (j = 0; j < na; j++) c2 += a.c[j] == b.c[i]; del += (b.c[i] == '~') | (c1 > c2); }
  blocks(); reduce();
  slurp_buf(out ? "r" : "STDOUT", buf, sizeof buf, &rlen);
  sym_assert(rlen >= 0, "report written");
  p = expect_line(buf, "ocreval Edit Operation Report Version 7.0\n" DASH, "title");
  L = nnum(&p); p = expect_line(p, "   Insertions\n", "insertions row"); sym_assert(L == ins, "insertions");
  L = nnum(&p); p = expect_line(p, "   Deletions\n", "deletions row"); sym_assert(L == del, "deletions");
  L = nnum(&p); p = expect_line(p, "   Moves\n", "moves row"); sym_assert(L == moves, "moves"); sym_assert(L < nblk || L == 0, "fewer moves than blocks");
  sym_reach("done");
  if (moves) {
    sym_reach("moves");
    p = expect_line(p, "\nMoves\n   Count   Length\n", "moves header");
    for (i = 1; i <= 100; i++) if (rows[i]) { long l, c = nnum(&p); l = nnum(&p); p = expect_line(p, "\n", "moves row"); sym_assert(l == i && c == rows[i], "moves by length"); tot += c; }
    sym_assert(tot == moves, "moves add up");
  }
  sym_assert(*p == 0, "end of report");
}
