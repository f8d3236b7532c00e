/* ngram on texts of letters of a hash chain (U+00FF + 63 j: equal sums of their bytes), blanks and line ends */
#include "util.h"
#define N 24
#define KL 32
static int g, m, gn; static unsigned val[N][3]; static char key[N][KL]; static int susp[N];
static struct { unsigned v; int s; } tx[N]; static int tn;
static int rep(unsigned v, char *d) { if (v == '\n') { memcpy(d, "<\\n>", 4); return 4; } if (v < 128) { d[0] = v; return 1; } d[0] = 0xC0 | v >> 6; d[1] = 0x80 | (v & 63); return 2; }
static void add(unsigned v, int s) { tx[tn].v = v; tx[tn++].s = s; }
static void gen(const char *file) {
  static char b[200]; int i, p = 0, n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 3)), k, kinds = sym_param("kinds", 3);
  tn = 0;
  for (i = 0; i < n; i++) {
    int j = sym_range("c", 0, sym_param("hi", 7)); unsigned v = 255 + 63 * j;
    k = symlen("kind", 0, i ? kinds : kinds > 1 ? 1 : kinds);
    if (k == 2) { b[p++] = ' '; add(' ', 0); } if (k == 3) { b[p++] = '\n'; add('\n', 0); } if (k == 1) b[p++] = '^';
    b[p++] = 0xC3 + j; b[p++] = 0xBF - j; add(v, k == 1);
  }
  sym_file(file, b, p);
  for (i = 0; i + gn <= tn; i++) { int q = 0, t; for (t = 0; t < gn; t++) { q += rep(tx[i + t].v, key[g] + q); val[g][t] = tx[i + t].v; susp[g] |= tx[i + t].s; } key[g++][q] = 0; }
}
static int eqk(const char *a, const char *b) { int i, e = 1; if (strlen(a) != strlen(b)) return 0; for (i = 0; a[i]; i++) e &= a[i] == b[i]; return sym_conc(e); }
static int less(int a, int b) { int t; for (t = 0; t < gn; t++) if (sym_conc(val[a][t] != val[b][t])) return sym_conc(val[a][t] < val[b][t]); return 0; }
static int r1[N], r2[N]; static long c1[N], s1[N], c2[N], s2[N];
static char *list(char *p, int *r, long *c, long *s, int *n) {
  long tc = 0, ts = 0, i; *n = 0; p = expect_line(p, "   Count  Suspect\n", "header");
  for (;;) { char *q = p, e[40], k[KL]; long x = nnum(&q), y = nnum(&q);
    sprintf(e, "%8ld %8ld   ", x, y); p = expect_line(p, e, "row");
    if (starts(p, "Total\n")) { sym_assert(x == tc && y == ts, "the total is the sum of the rows"); sym_assert(x == g, "the total is the number of n-grams"); return p + 6; }
    sym_assert(*p == '{', "row"); p++;
    for (i = 0; !(p[i] == '}' && p[i + 1] == '\n'); i++) { sym_assert(i < KL - 1 && p[i], "row"); k[i] = p[i]; } k[i] = 0; p += i + 2;
    for (i = 0; i < g && !eqk(k, key[i]); i++); sym_assert(i < g, "every row is an n-gram of the texts"); sym_assert(*n < g, "no more rows than n-grams");
    r[*n] = i; c[*n] = x; s[(*n)++] = y; tc += x; ts += y; }
}
void harness_main(void) {
  static char b[MAXF]; long len; char *p; int i, j, n1, n2, nf = sym_param("files", 1), opt = sym_param("opt", 1); const char *av[6], *num[] = {"", "1", "2", "3"}; int ac = 0;
  gn = sym_param("n", 2);
  if (gn > 1 || opt) { av[ac++] = "-n"; av[ac++] = num[gn]; }
  for (i = 0; i < nf; i++) { static const char *f[] = {"f0", "f1", "f2"}; gen(f[i]); av[ac++] = f[i]; }
  sym_assert(sym_execv("ngram", ac, av) == 0, "exit status");
  slurp_buf("STDOUT", b, MAXF, &len);
  p = list(b, r1, c1, s1, &n1); p = expect_line(p, "\n\n", "gap"); p = list(p, r2, c2, s2, &n2); sym_assert(*p == 0, "end of the report"); sym_assert(n1 == n2, "the lists have the same rows");
  for (i = 0; i + 1 < n1; i++) sym_assert(less(r1[i], r1[i + 1]), "ordered by characters, each once");
  for (i = 0; i < n1; i++) { int c = 0, s = 0; for (j = 0; j < g; j++) if (eqk(key[r1[i]], key[j])) { c++; s += susp[j]; } sym_assert(c1[i] == c, "occurrences of an n-gram"); sym_assert(s1[i] == s, "suspect occurrences of an n-gram");
    for (c = j = 0; j < n1; j++) if (r1[i] == r2[j]) { c++; sym_assert(c1[i] == c2[j] && s1[i] == s2[j], "the lists agree"); } sym_assert(c == 1, "the lists have the same rows"); }
  for (i = 0; i + 1 < n1; i++) sym_assert(c2[i] > c2[i + 1] || (c2[i] == c2[i + 1] && (s2[i] > s2[i + 1] || (s2[i] == s2[i + 1] && less(r2[i], r2[i + 1])))), "by decreasing count, then suspects, then characters");
  sym_reach("done"); if (n1 > 1) sym_reach("opt:several");
}
