/* accsum over reports with arbitrary counts */
#include "accgen.h"
static struct arep R[4]; static struct accrep o; static struct otext dummy;
static const char *nm[] = {"r0", "r1", "r2", "r3"};
static const long RS[8] = {0, 0x40, 0x41, 0x242A, 0x3FFF, 0x0D85, 0x3040, 0x2200};
static const long CS[8] = {0, 1, 3, 4, 8, 0x10, 0x20, 0x38};
static int same(const char *a, const char *b) {
  long n = sym_fsize(a), m = sym_fsize(b), i; int eq = n == m;
  for (i = 0; i < n && n == m; i++) eq &= sym_fbyte(a, i) == sym_fbyte(b, i);
  return eq;
}
static void keep(const char *to) { static char b[MAXF]; long n; slurp_buf("STDOUT", b, MAXF, &n); sym_file(to, b, n); }
void harness_main(void) {
  int t, i, j, k = sym_param("k", 2), nd = sym_param("nd", 3); const char *av[4];
  for (t = 0; t < k; t++) {
    long rs = RS[symlen("rows", sym_param("rlo", 0), sym_param("rhi", 3))], cs = rs == 0 ? 0 : CS[symlen("confs", sym_param("clo", 0), sym_param("chi", 2))];
    mkacc(nm[t], &R[t], nd, rs, cs); av[t] = nm[t];
  }
  { long c = 0, e = 0, m = 0; for (t = 0; t < k; t++) { c += R[t].chars; e += R[t].errors; m += R[t].rej + R[t].susp; } if (sym_conc(c != 0)) sym_assume((e <= 40 * c) & (m <= 40 * c)); }
  sym_assert(sym_execv("accsum", k, av) == 0, "exit status"); keep("sum");
  sym_assert(parse_acc("sum", &o), "report written");
  { long v = 0, c = 0, e = 0, a[9], q; memset(a, 0, sizeof a);
    for (t = 0; t < k; t++) { a[0] += R[t].chars; a[1] += R[t].errors; a[2] += R[t].rej; a[3] += R[t].susp; a[4] += R[t].fals; a[5] += R[t].tm; }
    sym_assert(o.chars == a[0], "characters add up"); sym_assert(o.errors == a[1], "errors add up"); sym_assert(o.reject == a[2], "reject characters add up"); sym_assert(o.suspect == a[3], "suspect markers add up"); sym_assert(o.falsem == a[4], "false marks add up");
    for (q = 0; q < 4; q++) { long m = 0, u = 0; for (t = 0; t < k; t++) { m += R[t].mk[q]; u += R[t].un[q]; } sym_assert(o.ops[0][q] == m, "marked operations add up"); sym_assert(o.ops[1][q] == u, "unmarked operations add up"); sym_assert(o.ops[2][q] == m + u, "total operations add up"); }
    sym_assert(o.tcnt == a[0], "class total count adds up"); sym_assert(o.tmiss == a[5], "class total missed adds up");
    /* character rows, in code point order, each once */
    for (i = j = 0; i < NPOOL; i++) { int in = 0; for (c = e = 0, t = 0; t < k; t++) { in |= R[t].cnt[i] != 0; c += R[t].cnt[i]; e += R[t].mis[i]; }
      if (in) { sym_assert(j < o.nch && !strcmp(o.ch[j], POOL[i].row), "every character of the inputs has its row, in order"); sym_assert((o.hcnt[j] == c) & (o.hmiss[j] == e), "character rows add up"); j++; } }
    sym_assert(j == o.nch, "no other character rows");
    /* classes: the rows account for the total; rows of one known class are summed */
    for (c = e = 0, i = 0; i < o.ncls; i++) { c += o.ccnt[i]; e += o.cmiss[i]; }
    sym_assert((c == a[0]) & (e == a[5]), "class rows account for every character");
    for (i = 0; i < o.ncls; i++) { int known = 1; for (c = e = 0, j = 0; j < NPOOL; j++) { int in = 0; for (t = 0; t < k; t++) in |= R[t].cnt[j] != 0; if (!in) continue; if (POOL[j].cls[0] == '?') known = 0; if (!strcmp(POOL[j].cls, o.cls[i])) for (t = 0; t < k; t++) { c += R[t].cnt[j]; e += R[t].mis[j]; } }
      if (known) sym_assert((o.ccnt[i] == c) & (o.cmiss[i] == e), "class rows add up"); }
    for (j = 0, i = 0; i < 6; i++) { int in = 0; for (c = e = 0, t = 0; t < k; t++) { in |= R[t].ce[i] != 0; c += R[t].ce[i]; e += R[t].cm[i]; }
      if (in) { int f = -1; for (q = 0; q < o.nconf; q++) if (!strcmp(o.conf[q], CONFS[i])) { sym_assert(f < 0, "one row per confusion"); f = q; } sym_assert(f >= 0, "every confusion of the inputs is kept"); sym_assert((o.cerr[f] == c) & (o.cmark[f] == e), "confusions add up"); j++; } }
    sym_assert(j == o.nconf, "no other confusions");
    for (q = 0; q + 1 < o.nconf; q++) sym_assert((o.cerr[q] > o.cerr[q + 1]) | ((o.cerr[q] == o.cerr[q + 1]) & ((o.cmark[q] > o.cmark[q + 1]) | ((o.cmark[q] == o.cmark[q + 1]) & (strcmp(o.conf[q], o.conf[q + 1]) < 0)))), "confusions ordered");
    (void)v;
  }
  if (sym_param("order", 1)) { for (t = 0; t < k; t++) av[t] = nm[k - 1 - t]; sym_assert(sym_execv("accsum", k, av) == 0, "exit status"); keep("sum2"); sym_assert(same("sum", "sum2"), "the order of the reports does not matter"); }
  if (sym_param("empty", 1)) { mkempty("e"); sym_assert(run2("accsum", "sum", "e") == 0, "exit status"); keep("sum3"); sym_assert(same("sum", "sum3"), "a report summed with an empty one is reproduced"); }
  sym_reach("done");
}
