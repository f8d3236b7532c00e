/* accdist, wordaccdist: share of the material at or above every accuracy */
#include "util.h"
static long c[8], m[8];
static const char *nm[] = {"r0", "r1", "r2", "r3"};
void harness_main(void) {
  int t, i, k = sym_param("k", 2), word = sym_param("word", 0); long hi = sym_param("hi", 9), total = 0, extra = sym_param("extra", 0); const char *av[4]; char *p; static char b[MAXF]; long len, last = -1;
  for (t = 0; t < k; t++) {
    char s[2000]; int q = 0; long ok = sym_range("ok", 0, t ? sym_param("hi2", hi) : hi);
    m[t] = sym_range("m", 0, t ? sym_param("hi2", hi) : hi); c[t] = ok + m[t];
    if (extra) { long x = sym_range("x", 0, extra); sym_assume((x == 0) | (ok == 0)); m[t] += x; }  /* errors beyond the characters */
    total += c[t];
    if (word) { q += put_s(s + q, "ocreval Word Accuracy Report Version 7.0\n----------------------------------------\n"); put_long(s, &q, c[t], 8); q += put_s(s + q, "   Words\n"); put_long(s, &q, m[t], 8);
      q += put_s(s + q, "   Misrecognized\n   50.00%  Accuracy\n\nStopwords\n   Count   Missed   %Right   Length\n       0        0   ------    Total\n\nNon-stopwords\n   Count   Missed   %Right   Length\n"); put_long(s, &q, c[t], 8); s[q++] = ' '; put_long(s, &q, m[t], 8); q += put_s(s + q, "    50.00    Total\n\nDistinct Non-stopwords\n   Count   Missed   %Right   Occurs\n       1        0   100.00    Total\n"); }
    else { q += put_s(s + q, "ocreval Accuracy Report Version 7.0\n-----------------------------------\n"); put_long(s, &q, c[t], 8); q += put_s(s + q, "   Characters\n"); put_long(s, &q, m[t], 8);
      q += put_s(s + q, "   Errors\n   50.00%  Accuracy\n\n       0   Reject Characters\n       0   Suspect Markers\n       0   False Marks\n    0.00%  Characters Marked\n   50.00%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n       0        0        0        0   Marked\n"); put_long(s, &q, m[t], 8); q += put_s(s + q, "        0        0 "); put_long(s, &q, m[t], 8); q += put_s(s + q, "   Unmarked\n       0        0        0        0   Total\n\n   Count   Missed   %Right\n"); put_long(s, &q, c[t], 8); s[q++] = ' '; put_long(s, &q, m[t], 8); q += put_s(s + q, "    50.00   Total\n"); }
    sym_file(nm[t], s, q); av[t] = nm[t];
  }
  sym_assert(sym_execv(word ? "wordaccdist" : "accdist", k, av) == 0, "exit status");
  slurp_buf("STDOUT", b, MAXF, &len); p = b;
  if (sym_conc(total == 0)) { sym_assert(len <= 0, "nothing written without material"); sym_reach("none"); return; }
  for (i = 0; i <= 100; i++) {
    long share = 0; char row[32]; int j;
    for (t = 0; t < k; t++) if (sym_conc((c[t] > 0) & (100 * c[t] - 100 * m[t] >= i * c[t]))) share += c[t];
    sprintf(row, "%3d ", i); p = expect_line(p, row, "threshold");
    sprintf(row, "%6.2f\n", 100.0 * (double)share / (double)total);
    for (j = 0; row[j]; j++) { sym_assert(p[j] == row[j], "share of the material at or above the threshold"); }
    p += j;
    if (i == 0 && !extra) sym_assert(share == total, "everything is at least zero percent right");
    if (i) sym_assert(share <= last, "never increases"); last = share;
  }
  sym_assert(*p == 0, "end of the table"); sym_reach("done");
}
