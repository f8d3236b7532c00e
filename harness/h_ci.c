/* accci, wordaccci: the jackknife interval of the reports */
#include "util.h"
#include "accparse.h"
#include <math.h>
#include <stdio.h>
#define K 5
static long c[K], m[K]; static const char *nm[] = {"r0", "r1", "r2", "r3", "r4"};
static char *value(char *p, long v, const char *t) { char b[80]; long x; char *q = p; x = nnum(&q); sym_assert(x == v, "total of the reports"); sym_assert(q - p == 14 || x > 99999999999999, "column"); sprintf(b, "   %s\n", t); return expect_line(q, b, "row"); }
/* a printed number of hundredths is x kept within 0 and 100, up to rounding */
static void near(long v, double x, const char *msg) { double d = 100.0 * x - (double)v; int up = d <= 0.51, dn = d >= -0.51; sym_assert((v >= 0) & (v <= 10000), "within 0 and 100"); sym_assert(up | (v >= 10000), msg); sym_assert(dn | (v <= 0), msg); }
static void read(char *b, int k, double lo, double hi, long C, long E, int word) {
  char *p; long v, len; slurp_buf("STDOUT", b, MAXF, &len);
  p = value(b, k, "Observations"); p = value(p, C, word ? "Words" : "Characters"); p = value(p, E, word ? "Misrecognized" : "Errors");
  sym_assert(C > 0, "no interval without material");
  { char e[60]; int i, same = 1; sprintf(e, "%14.2f", 100.0 * (double)(C - E) / (double)C); for (i = 0; e[i]; i++) same &= p[i] == e[i]; sym_assert(same, "accuracy"); p = expect_line(p + i, "%  Accuracy\n", "accuracy row"); }
  sym_assert(sym_fixed(p, 6, 2, &v), "lower end of the interval"); near(v, lo, "lower end of the interval"); p = expect_line(p + 6, "%,", "interval row");
  sym_assert(sym_fixed(p, 6, 2, &v), "upper end of the interval"); near(v, hi, "upper end of the interval"); p = expect_line(p + 6, "%  Approximate 95% Confidence Interval for Accuracy\n", "interval row");
  sym_assert(*p == 0, "end of the output");
}
void harness_main(void) {
  int t, k = sym_param("k", 2), word = sym_param("word", 0), full = 0, st; long hi = sym_param("hi", 9), C = 0, E = 0, extra = sym_param("extra", 0), len; const char *av[K]; static char b[MAXF]; double J[K], th, mean = 0, s = 0, w, lo, up;
  for (t = 0; t < k; t++) {
    char f[2000]; int q = 0; long ok = sym_range("ok", 0, hi);
    m[t] = sym_range("m", 0, hi); c[t] = ok + m[t]; if (extra) { long x = sym_range("x", 0, extra); sym_assume((x == 0) | (ok == 0)); sym_assume((x == 0) | (c[t] > 0)); m[t] += x; }
    if (word) { q += put_s(f + q, "ocreval Word Accuracy Report Version 7.0\n----------------------------------------\n"); put_long(f, &q, c[t], 8); q += put_s(f + q, "   Words\n"); put_long(f, &q, m[t], 8);
      q += put_s(f + q, "   Misrecognized\n   50.00%  Accuracy\n\nStopwords\n   Count   Missed   %Right   Length\n       0        0   ------    Total\n\nNon-stopwords\n   Count   Missed   %Right   Length\n"); put_long(f, &q, c[t], 8); f[q++] = ' '; put_long(f, &q, m[t], 8); q += put_s(f + q, "    50.00    Total\n\nDistinct Non-stopwords\n   Count   Missed   %Right   Occurs\n       1        0   100.00    Total\n"); }
    else { q += put_s(f + q, "ocreval Accuracy Report Version 7.0\n-----------------------------------\n"); put_long(f, &q, c[t], 8); q += put_s(f + q, "   Characters\n"); put_long(f, &q, m[t], 8);
      q += put_s(f + q, "   Errors\n   50.00%  Accuracy\n\n       0   Reject Characters\n       0   Suspect Markers\n       0   False Marks\n    0.00%  Characters Marked\n   50.00%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n       0        0        0        0   Marked\n"); put_long(f, &q, m[t], 8); q += put_s(f + q, "        0        0 "); put_long(f, &q, m[t], 8); q += put_s(f + q, "   Unmarked\n       0        0        0        0   Total\n\n   Count   Missed   %Right\n"); put_long(f, &q, c[t], 8); f[q++] = ' '; put_long(f, &q, m[t], 8); q += put_s(f + q, "    50.00   Total\n"); }
    sym_file(nm[t], f, q); C += c[t]; E += m[t];
  }
  for (t = 0; t < k; t++) { av[t] = nm[t]; full += sym_conc(c[t] > 0); }
  st = sym_execv(word ? "wordaccci" : "accci", k, av);
  if (full < 2) {
    sym_assert(st == 1, "refused"); sym_assert(sym_fread("STDOUT", 0, b, 10) <= 0, "nothing written"); len = sym_fread("STDERR", 0, b, 200); b[len < 0 ? 0 : len] = 0;
    sym_assert(strstr(b, k < 2 ? "not enough input files\n" : "not enough observations\n") != 0, "refused with a message"); sym_reach("opt:refused"); return;
  }
  sym_assert(st == 0, "exit status");
  th = 100.0 * (double)(C - E) / (double)C;
  for (t = 0; t < k; t++) { J[t] = k * th - (k - 1) * (100.0 * (double)(C - c[t] - (E - m[t])) / (double)(C - c[t])); mean += J[t]; }
  mean /= k; for (t = 0; t < k; t++) s += (J[t] - mean) * (J[t] - mean);
  w = 1.96 * sqrt(s / (k - 1) / k); lo = mean - w; up = mean + w;
  read(b, k, lo, up, C, E, word);
  if (sym_param("order", 1)) { for (t = 0; t < k; t++) av[t] = nm[k - 1 - t]; sym_assert(sym_execv(word ? "wordaccci" : "accci", k, av) == 0, "exit status"); read(b, k, lo, up, C, E, word); }
  sym_reach("done");
}
