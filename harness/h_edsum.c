/* editopsum over 2..3 reports with arbitrary counts; editopcost on one or two reports */
#include "util.h"
#define HEAD "ocreval Edit Operation Report Version 7.0\n-----------------------------------------\n"
static const int lens[2][3] = {{1, 7, 100}, {2, 99, 100}};
static long ins[4], del[4], mv[4], row[4][101];
static void mkrep(const char *f, int t, int nd, int nrows) {
  static char b[4000]; int k = 0, i, at; const int *ls = lens[sym_param("lens", 0)];
  k = put_s(b, HEAD);
  ins[t] = put_num(b, &k, "ins", nd, 8); k += put_s(b + k, "   Insertions\n");
  del[t] = put_num(b, &k, "del", nd, 8); k += put_s(b + k, "   Deletions\n");
  if (nrows == 0) { k += put_s(b + k, "       0   Moves\n"); sym_file(f, b, k); return; }
  { char r[400]; int rk = 0; long tot = 0;
    for (i = 0; i < nrows; i++) { long c = put_num(r, &rk, "cnt", nd, 8); sym_assume(c > 0); put_long(r, &rk, ls[i], 9); r[rk++] = '\n'; row[t][ls[i]] = c; tot += c; }
    mv[t] = tot; put_long(b, &k, tot, 8);
    k += put_s(b + k, "   Moves\n\nMoves\n   Count   Length\n"); memcpy(b + k, r, rk); k += rk; }
  sym_file(f, b, k);
}
void harness_main(void) {
  static char buf[8000]; char *p; long len, i; int t, k = sym_param("k", 2), nd = sym_param("nd", 2);
  static const char *nm[] = {"r0", "r1", "r2", "r3"};
  for (t = 0; t < k; t++) mkrep(nm[t], t, nd, symlen("rows", sym_param("rmin", 0), sym_param("rmax", 2)));
  if (sym_param("cost", 0)) {
    long I = ins[0], R[101];
    sym_assert((k == 1 ? run1("editopcost", "r0") : run2("editopcost", "r0", "r1")) == 0, "exit status");
    slurp_buf("STDOUT", buf, sizeof buf, &len); p = buf;
    for (i = 1; i <= 100; i++) R[i] = row[0][i];
    if (k == 2) { I -= ins[1]; for (i = 1; i <= 100; i++) R[i] -= row[1][i]; }
    for (t = 0; t <= 100; t++) {
      long want = I, a, v;
      for (i = 1; i <= 100; i++) want += R[i] * (i < t ? i : t);
      a = nnum(&p); v = nnum(&p); p = expect_line(p, "\n", "cost row");
      sym_assert(a == t, "threshold"); sym_assert(v == want, "cost = insertions + moves at the cheaper of their length and the threshold");
    }
    sym_assert(*p == 0, "end of table"); sym_reach("done"); return;
  }
  { int order = sym_param("order", 0); const char *av[5]; long I = 0, D = 0, M = 0, v, n = 0, tot = 0;
    av[0] = "out"; for (t = 0; t < k; t++) { av[1 + t] = nm[order ? k - 1 - t : t]; I += ins[t]; D += del[t]; M += mv[t]; }
    sym_assert(sym_execv("editopsum", k, av + 1) == 0, "exit status");
    slurp_buf("STDOUT", buf, sizeof buf, &len);
    p = expect_line(buf, HEAD, "title");
    v = nnum(&p); p = expect_line(p, "   Insertions\n", "insertions row"); sym_assert(v == I, "insertions add up");
    v = nnum(&p); p = expect_line(p, "   Deletions\n", "deletions row"); sym_assert(v == D, "deletions add up");
    v = nnum(&p); p = expect_line(p, "   Moves\n", "moves row"); sym_assert(v == M, "moves add up");
    if (M > 0) p = expect_line(p, "\nMoves\n   Count   Length\n", "moves header");
    for (i = 1; i <= 100; i++) { long s = 0; for (t = 0; t < k; t++) s += row[t][i]; if (s > 0) { long l; v = nnum(&p); l = nnum(&p); p = expect_line(p, "\n", "moves row"); sym_assert(l == i, "length"); sym_assert(v == s, "moves of each length add up"); } }
    sym_assert(*p == 0, "end of report"); sym_reach("done");
  }
}
