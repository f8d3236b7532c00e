/* texts of any bytes: a report or an error message, and nothing else */
#include "util.h"
#include <stdio.h>
static const struct { const char *name, *opt; int nf; } TOOL[] = {{"accuracy", 0, 2}, {"editop", 0, 2}, {"ngram", "-n3", 1}, {"ngram", "-n1", 1}, {"synctext", "-s", 2}, {"synctext", "-H", 2}, {"synctext", "-T", 2}, {"vote", "-s1/2", 2}, {"vote", "-O", 4}, {"wordacc", 0, 2}, {"wordacc", "-Sg0", 2}, {"wordfreq", 0, 1}, {"nonstopacc", 0, 0}, {"groupacc", 0, 0}};
#define WREP "ocreval Word Accuracy Report Version 7.0\n----------------------------------------\n       8   Words\n       2   Misrecognized\n   75.00%  Accuracy\n\nStopwords\n   Count   Missed   %Right   Length\n       4        0   100.00     3\n       4        0   100.00 Total\n\nNon-stopwords\n   Count   Missed   %Right   Length\n       2        1    50.00     3\n       2        1    50.00    12\n       4        2    50.00 Total\n\nDistinct Non-stopwords\n   Count   Missed   %Right   Occurs\n       2        1    50.00     1\n       1        1     0.00   >10\n       3        2    33.33 Total\n\nPhrases\n   Count   Missed   %Right   Length\n       8        2    75.00     1\n       7        3    57.14     2\n\nStopwords\n   Count   Missed   %Right\n       4        0   100.00   the\n\nNon-stopwords\n   Count   Missed   %Right\n       3        1    66.67   cat\n       1        1     0.00   antediluvian\n"
#define AREP "ocreval Accuracy Report Version 7.0\n-----------------------------------\n       4   Characters\n       1   Errors\n   75.00%  Accuracy\n\n       0   Reject Characters\n       0   Suspect Markers\n       0   False Marks\n    0.00%  Characters Marked\n   75.00%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n       0        0        0        0   Marked\n       0        1        0        1   Unmarked\n       0        1        0        1   Total\n\n   Count   Missed   %Right\n       4        1    75.00   ASCII Lowercase Letters\n       4        1    75.00   Total\n\n  Errors   Marked   Correct-Generated\n       1        0   {b}-{c}\n\n   Count   Missed   %Right\n       3        0   100.00   {a}\n       1        1     0.00   {b}\n"
static const char *FIX[] = {"", "ab a\n", "a\xCC\x81 \xE2\x82\xAC"};
static char b[4000], eb[400], m[40];
void harness_main(void) {
  int tool = sym_param("tool", 0), n, i, ac = 0, st, at = sym_param("at", 0), kind = sym_param("kind", 0), k = 0; const char *a[8], *s; long el; static char nm[4][4] = {"f0", "f1", "f2", "f3"};
  n = kind ? 0 : symlen("n", sym_param("nmin", 0), sym_param("nmax", 2));
  s = FIX[sym_param("pre", 0)]; k = put_s(b, s);
  if (kind == 0) for (i = 0; i < n; i++) b[k++] = sym_u8("b");
  else if (kind == 1) { /* runs of the same thing, of lengths around the limits of the programs */
    static const char *A[] = {"a", "1", "^", "~", "\n", "\t", "a^\n", "a ", "\xE2\x82\xAC", "a'"}; int w, q, r; for (w = 0; w < 2; w++) { q = symlen("what", 0, 9); r = w ? 3 : sym_param("rep", 100) + symlen("more", 0, 3); for (i = 0; i < r && k < 3900; i++) k += put_s(b + k, A[q]); } }
  sym_file("g0", "the a\n", 6);
  if (TOOL[tool].opt) a[ac++] = TOOL[tool].opt;
  if (!TOOL[tool].nf) { sym_file("f0", b, k); a[ac++] = "f0"; s = tool == 12 ? WREP : AREP; sym_file("r", s, strlen(s)); a[ac++] = "r"; }
  else for (i = 0; i < TOOL[tool].nf; i++) { if (i == at || kind == 2) sym_file(nm[i], b, k); else sym_file(nm[i], "ab \n^c'a\n", 9); a[ac++] = nm[i]; }
  st = sym_execv(TOOL[tool].name, ac, a);
  el = sym_fread("STDERR", 0, eb, 399); eb[el] = 0;
  sym_assert((st == 0) | (st == 1), "exit status");
  if (st) { sprintf(m, "%s: ", TOOL[tool].name); sym_assert(starts(eb, m), "error message"); sym_reach("opt:error"); }
  else { sym_assert(el == 0, "no message without an error"); sym_reach("opt:ok"); }
  sym_reach("done");
}
