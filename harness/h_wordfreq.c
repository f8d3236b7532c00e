/* wordfreq on texts of words of arbitrary letters */
#include "util.h"
#define N 16
#define L 8
static char w[N][L]; static int n;
static void gen(const char *file, int k, int fi) {
  static char b[400]; int i, p = 0, alpha = sym_param("alpha", 0);
  for (i = 0; i < k; i++, n++) {
    char *d = w[n]; int l = 2, j;
    if (alpha == 0) { d[0] = sym_range("w", sym_param("lo", 'a'), sym_param("hi", 'z')); d[1] = 219 - d[0]; memcpy(b + p, d, 2); }
    else if (alpha == 1) { int x = sym_range("w", 'A', 'z'); sym_assume((x <= 'Z') | (x >= 'a')); d[0] = sym_ite(x <= 'Z', x + 32, x); d[1] = 219 - d[0]; b[p] = x; b[p + 1] = sym_ite(sym_range("up", 0, 1), d[1] - 32, d[1]); }
    else { static const char *V[] = {"a", "b", "ab", "\xC3\xA9", "3.5", "_"}; strcpy(d, V[symlen("w", 0, 5)]); l = strlen(d); memcpy(b + p, d, l); }
    d[l] = 0; p += l;
    { static const char *Z[] = {" ", "\n", ", ", " - ", "!\n\n"}; const char *z = Z[sym_param("seps", 1) ? symlen("sep", 0, sym_param("seps", 1)) : 0]; j = strlen(z); memcpy(b + p, z, j); p += j; }
  }
  sym_file(file, b, p); (void)fi;
}
static int eq(const char *a, const char *b) { int i, e = 1; if (strlen(a) != strlen(b)) return 0; for (i = 0; a[i]; i++) e &= a[i] == b[i]; return sym_conc(e); }
static int less(const char *a, const char *b) { int i; for (i = 0; ; i++) { unsigned char x = a[i], y = b[i]; if (x != y) return x < y; if (!x) return 0; } }
static char k1[N][L], k2[N][L]; static long c1[N], c2[N];
static char *list(char *p, char k[][L], long *c, int *m) {
  *m = 0; p = expect_line(p, "   Count\n", "header");
  for (;;) { char *q = p; long x = nnum(&q), t = 0; char e[40]; int i; sprintf(e, "%8ld   ", x); p = expect_line(p, e, "row"); sym_assert(q + 3 == p, "row");
    if (starts(p, "Total\n")) { for (i = 0; i < *m; i++) t += c[i]; sym_assert(x == t, "the total is the sum of the rows"); sym_assert(x == n, "the total is the number of words"); return p + 6; }
    sym_assert(*m < n, "no more rows than words"); c[*m] = x; for (i = 0; *p != '\n'; i++) { sym_assert(i < L - 1, "word"); k[*m][i] = *p++; } k[(*m)++][i] = 0; p++; }
}
void harness_main(void) {
  static char b[MAXF]; long len; char *p; int i, j, m, m2, nf = sym_param("files", 2); const char *av[3] = {"f0", "f1", "f2"};
  for (i = 0; i < nf; i++) gen(av[i], symlen("n", sym_param("nmin", 0), sym_param("nmax", 2)), i);
  sym_assert(sym_execv("wordfreq", nf, av) == 0, "exit status");
  slurp_buf("STDOUT", b, MAXF, &len);
  p = list(b, k1, c1, &m); p = expect_line(p, "\n\n", "gap"); p = list(p, k2, c2, &m2); sym_assert(*p == 0, "end of the report"); sym_assert(m == m2, "the lists have the same rows");
  for (i = 0; i + 1 < m; i++) sym_assert(less(k1[i], k1[i + 1]), "alphabetical, each word once");
  for (i = 0; i < m; i++) { int c = 0; for (j = 0; j < n; j++) c += eq(k1[i], w[j]); sym_assert(c > 0 && c1[i] == c, "occurrences of a word"); for (c = j = 0; j < m; j++) if (eq(k1[i], k2[j])) { c++; sym_assert(c1[i] == c2[j], "the lists agree"); } sym_assert(c == 1, "the lists have the same words"); }
  for (i = 0; i + 1 < m; i++) sym_assert(c2[i] > c2[i + 1] || (c2[i] == c2[i + 1] && less(k2[i], k2[i + 1])), "by decreasing frequency, then alphabetical");
  sym_reach("done"); if (m > 1) sym_reach("opt:several");
}
