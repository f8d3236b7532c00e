/* inputs of any content: a report or an error message, and nothing else */
#include "util.h"
#include <stdio.h>
#include "reports.h"
static const struct { const char *name; int ty, nf, pre, empty; } TOOL[] = {{"accsum", 0, 2, 0, 0}, {"accci", 0, 3, 0, 0}, {"accdist", 0, 1, 0, 1}, {"groupacc", 0, 2, 1, 0}, {"wordaccsum", 1, 2, 0, 0}, {"wordaccci", 1, 3, 0, 0}, {"wordaccdist", 1, 1, 0, 1}, {"nonstopacc", 1, 2, 1, 1}, {"editopsum", 2, 2, 0, 0}, {"editopcost", 2, 1, 0, 0}, {"editopcost", 2, 2, 0, 0}};
static const long P10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000};
static char b[4000], eb[400], m[40];
static int isd(int c) { return c >= '0' && c <= '9'; }
void harness_main(void) {
  int tool = sym_param("tool", 0), how = sym_param("how", 0), ty = TOOL[tool].ty, n, p, i, k, nf = TOOL[tool].nf, ac = 0, st, cuts = sym_param("cuts", 0); const char *s = BASE[ty], *a[4]; long el;
  n = strlen(s); memcpy(b, s, n + 1);
  if (how == 0) { /* one byte of the report is any byte */
    int lo = sym_param("lo", 0), step = sym_param("step", 1), cnt = (n - lo + step - 1) / step;
    p = lo + step * symlen("pos", 0, cnt - 1); b[p] = sym_u8("b"); }
  else if (how == 1) { n = symlen("cut", 0, n); } /* it ends anywhere */
  else if (how == 2) { /* a number is any number */
    int f = 0, w = 0, nd = sym_param("nd", 12), neg; for (i = 0; i < n; i++) if (isd(b[i]) && (!i || !isd(b[i - 1]))) f++;
    w = symlen("field", sym_param("flo", 0), sym_param("fhi", f - 1)); for (i = 0, f = -1; f < w; i++) if (isd(b[i]) && (!i || !isd(b[i - 1]))) f++;
    i--; for (k = i; isd(b[k]); k++) ;
    neg = symlen("neg", 0, 1); memmove(b + i + nd + neg, b + k, n - k + 1); n += nd + neg - (k - i); if (neg) b[i++] = '-'; sym_digits(b + i, sym_range("v", 0, P10[nd] - 1), nd); }
  else if (how == 3) { /* a line is missing, twice there, or very long */
    int ln = 0, w, act, q; for (i = 0; i < n; i++) ln += b[i] == '\n'; w = symlen("line", 0, ln - 1); act = symlen("act", 0, 2); for (i = 0; w; i++) w -= b[i] == '\n'; for (k = i; b[k] != '\n'; k++) ; k++;
    if (act == 0) { memmove(b + i, b + k, n - k + 1); n -= k - i; }
    else if (act == 1) { memmove(b + k + (k - i), b + k, n - k + 1); memcpy(b + k, b + i, k - i); n += k - i; }
    else { int ch = sym_conc(pick("fill", "{x<7")); q = sym_param("long", 300); memmove(b + k - 1 + q, b + k - 1, n - k + 2); for (p = 0; p < q; p++) b[k - 1 + p] = ch; n += q; } }
  else if (how == 4) { /* the text of a character row */
    const char *z = strstr(b, "{<200E>}"); int L = symlen("len", 0, sym_param("len", 8)); p = z - b + 1; i = 0; b[p + i++] = '<'; for (k = 0; k < L; k++) b[p + i++] = sym_u8("c"); strcpy(b + p + i, ">}\n"); n = p + i + 3; for (k = 0; k < L; k++) sym_assume(b[p + 1 + k] != '\n'); }
  if (TOOL[tool].pre) { sym_file("pre", "the a\xC3\xA9<\n", 8); a[ac++] = "pre"; nf--; }
  sym_file("f", b, n); a[ac++] = "f"; if (nf > 1) { sym_file("g", s, strlen(s)); a[ac++] = "g"; } if (nf > 2) a[ac++] = "g";
  st = sym_execv(TOOL[tool].name, ac, a);
  el = sym_fread("STDERR", 0, eb, 399); eb[el] = 0;
  sym_assert((st == 0) | (st == 1), "exit status");
  if (st) { sprintf(m, "%s: ", TOOL[tool].name); sym_assert(starts(eb, m), "error message"); sym_reach("opt:error"); }
  else { sym_assert(el == 0, "no message without an error"); if (!TOOL[tool].empty) sym_assert(sym_fsize("STDOUT") > 0, "report written"); sym_reach("opt:ok"); }
  sym_reach("done");
}
