/* nonstopacc: accuracy without the first k listed stopwords */
#include "wacgen.h"
static struct wsrc R;
#define NT 9
static const char *TOK[NT] = {"the", "a", "because", "zz", "x1", "none", "The", "zz't", "."};
static const long SS[4] = {7, 5, 0, 1}, NS[4] = {0x1F, 0x0C, 0x08, 0};
void harness_main(void) {
  char s[200], *p, row[40]; static char b[MAXF]; int k = 0, i, j, out = 1; long n, len, c, m; int us[NSW] = {0}, un[NNW] = {0}, L[8], a;
  mkwac("r", &R, sym_param("nd", 4), SS[symlen("s", sym_param("slo", 0), sym_param("shi", 1))], NS[symlen("n", sym_param("nlo", 0), sym_param("nhi", 1))]);
  n = symlen("k", sym_param("kmin", 0), sym_param("kmax", 3));
  for (i = 0; i < n; i++) { L[i] = sym_conc(sym_range("t", 0, sym_param("ntok", NT) - 1)); k += put_s(s + k, TOK[L[i]]); k += put_s(s + k, sym_conc(sym_range("nl", 0, sym_param("nl", 1))) ? "\n" : " "); }
  sym_file("st", s, k);
  sym_assert(run2("nonstopacc", "st", "r") == 0, "exit status");
  slurp_buf("STDOUT", b, MAXF, &len); p = b;
  for (i = -1, j = 0; i < n; i++) {
    if (i >= 0) { const char *w; if (L[i] == NT - 1) continue; w = L[i] == 6 ? "the" : TOK[L[i]];
      for (a = 0; a < NSW; a++) if (!strcmp(SW[a], w)) us[a] = 1; for (a = 0; a < NNW; a++) if (!strcmp(NW[a], w)) un[a] = 1; }
    for (c = m = 0, a = 0; a < NSW; a++) if (!us[a]) { c += R.sc[a]; m += R.sm[a]; }
    for (a = 0; a < NNW; a++) if (!un[a]) { c += R.nc[a]; m += R.nm[a]; }
    if (sym_conc(c == 0)) { out = 0; break; }
    sprintf(row, "%3d ", j++); p = expect_line(p, row, "line number");
    sprintf(row, "%6.2f\n", 100.0 * (double)(c - m) / (double)c); for (a = 0; row[a]; a++) { sym_assert(p[a] == row[a], "accuracy over the other words"); } p += a;
  }
  sym_assert(*p == 0, "end of the listing"); (void)out;
  sym_reach("done");
}
