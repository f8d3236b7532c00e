/* wordaccsum over reports with arbitrary counts */
#include "wacgen.h"
static struct wsrc R[4]; static struct wrep o;
static const char *nm[] = {"r0", "r1", "r2", "r3"};
static const long SS[6] = {0, 1, 7, 4, 3, 2}, NS[6] = {0, 1, 0x60, 0x0C, 0x12, 0x7F};
static int same(const char *a, const char *b) { long n = sym_fsize(a), m = sym_fsize(b), i; int eq = n == m; for (i = 0; i < n && n == m; i++) eq &= sym_fbyte(a, i) == sym_fbyte(b, i); return eq; }
static void keep(const char *to) { static char b[MAXF]; long n; slurp_buf("STDOUT", b, MAXF, &n); sym_file(to, b, n); }
static void lens(const char **w, int n, int stop, long *gc, long *gm, const char *msg) {
  int l, i, t; for (l = 1; l <= 50; l++) { long c = 0, m = 0; for (i = 0; i < n; i++) if (wcap(w[i]) == l) for (t = 0; t < (int)sym_param("k", 2); t++) { c += stop ? R[t].sc[i] : R[t].nc[i]; m += stop ? R[t].sm[i] : R[t].nm[i]; } sym_assert((gc[l] == c) & (gm[l] == m), msg); }
}
static void words(const char **w, int n, int stop, struct wtab *o, const char *msg) {
  int i, j = 0, t, q, k = sym_param("k", 2); static char b[WLEN];
  for (q = 0; q + 1 < o->n; q++) sym_assert(strcmp(o->k[q], o->k[q + 1]) < 0, "words sorted, each once");
  for (i = 0; i < n; i++) { long c = 0, m = 0; int in = 0, f = -1; for (t = 0; t < k; t++) { in |= sym_conc((stop ? R[t].sc[i] : R[t].nc[i]) != 0); c += stop ? R[t].sc[i] : R[t].nc[i]; m += stop ? R[t].sm[i] : R[t].nm[i]; }
    for (q = 0; q < o->n; q++) if (!strcmp(o->k[q], w[i])) f = q;
    if (in) { sym_assert(f >= 0, "every word of the inputs is listed"); sym_assert((o->c[f] == c) & (o->m[f] == m), msg); j++; } }
  sym_assert(j == o->n, "no other words"); (void)b;
}
void harness_main(void) {
  int t, i, k = sym_param("k", 2), nd = sym_param("nd", 3); const char *av[4]; long c, m;
  for (t = 0; t < k; t++) { mkwac(nm[t], &R[t], nd, SS[symlen("s", sym_param("slo", 0), sym_param("shi", 2))], NS[symlen("n", sym_param("nlo", 0), sym_param("nhi", 2))]); av[t] = nm[t]; }
  sym_assert(sym_execv("wordaccsum", k, av) == 0, "exit status"); keep("sum");
  sym_assert(parse_wac("sum", &o), "report written");
  for (c = m = 0, t = 0; t < k; t++) { c += R[t].words; m += R[t].miss; } sym_assert((o.words == c) & (o.miss == m), "totals add up");
  lens(SW, NSW, 1, o.sc, o.sm, "stopword length rows add up"); lens(NW, NNW, 0, o.nc, o.nm, "non-stopword length rows add up");
  for (c = m = 0, t = 0; t < k; t++) for (i = 0; i < NSW; i++) { c += R[t].sc[i]; m += R[t].sm[i]; } sym_assert((o.sc[0] == c) & (o.sm[0] == m), "total of the stopwords");
  for (c = m = 0, t = 0; t < k; t++) for (i = 0; i < NNW; i++) { c += R[t].nc[i]; m += R[t].nm[i]; } sym_assert((o.nc[0] == c) & (o.nm[0] == m), "total of the non-stopwords");
  { long tc = 0, tm = 0; int q; for (q = 1; q < 12; q++) { c = m = 0; for (i = 0; i < 4; i++) if (DI[i] == q) for (t = 0; t < k; t++) { c += R[t].dc[i]; m += R[t].dm[i]; } sym_assert((o.dc[q] == c) & (o.dm[q] == m), "rows of distinct words add up"); tc += c; tm += m; } sym_assert((o.dc[0] == tc) & (o.dm[0] == tm), "total of the distinct words");
    for (q = 1; q < 9; q++) { c = m = 0; for (i = 0; i < 3; i++) if (PI[i] == q) for (t = 0; t < k; t++) { c += R[t].pc[i]; m += R[t].pm[i]; } sym_assert((o.pc[q] == c) & (o.pm[q] == m), "phrase rows add up"); } }
  words(SW, NSW, 1, &o.s, "stopwords add up"); words(NW, NNW, 0, &o.t, "non-stopwords add up");
  if (sym_param("order", 1)) { for (t = 0; t < k; t++) av[t] = nm[k - 1 - t]; sym_assert(sym_execv("wordaccsum", k, av) == 0, "exit status"); keep("sum2"); sym_assert(same("sum", "sum2"), "the order of the reports does not matter"); }
  if (sym_param("empty", 1)) { static struct wsrc z; mkwac("e", &z, 1, 0, 0); sym_assert(run2("wordaccsum", "sum", "e") == 0, "exit status"); keep("sum3"); sym_assert(same("sum", "sum3"), "a report summed with an empty one is reproduced"); }
  sym_reach("done");
}
