/* the command lines of all programs: usage, errors, exit status, outputs */
#include "util.h"
#include <stdio.h>
#define ACC "ocreval Accuracy Report Version 7.0\n-----------------------------------\n"
#define WAC "ocreval Word Accuracy Report Version 7.0\n----------------------------------------\n"
#define EDO "ocreval Edit Operation Report Version 7.0\n-----------------------------------------\n"
static const char AREP[] = ACC "       4   Characters\n       1   Errors\n   75.00%  Accuracy\n\n       0   Reject Characters\n       0   Suspect Markers\n       0   False Marks\n    0.00%  Characters Marked\n   75.00%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n       0        0        0        0   Marked\n       0        1        0        1   Unmarked\n       0        1        0        1   Total\n\n   Count   Missed   %Right\n       4        1    75.00   ASCII Lowercase Letters\n       4        1    75.00   Total\n\n  Errors   Marked   Correct-Generated\n       1        0   {b}-{c}\n\n   Count   Missed   %Right\n       3        0   100.00   {a}\n       1        1     0.00   {b}\n";
static const char WREP[] = WAC "       4   Words\n       1   Misrecognized\n   75.00%  Accuracy\n\nStopwords\n   Count   Missed   %Right   Length\n       2        0   100.00        3\n       2        0   100.00   Total\n\nNon-stopwords\n   Count   Missed   %Right   Length\n       2        1    50.00        3\n       2        1    50.00   Total\n\nDistinct Non-stopwords\n   Count   Missed   %Right   Occurs\n       2        1    50.00        1\n       2        1    50.00   Total\n\nPhrases\n   Count   Missed   %Right   Length\n       4        1    75.00        1\n       3        1    66.67        2\n\nStopwords\n   Count   Missed   %Right\n       2        0   100.00   the\n\nDistinct Non-stopwords\n   Count   Missed   %Right\n       1        0   100.00   cat\n       1        1     0.00   dog\n";
static const char EREP[] = EDO "       3   Insertions\n       4   Deletions\n       2   Moves\n\nMoves\n   Count   Length\n       2        3\n";
enum { A = 1, W, E, T1, T2, G };
static const char *CONT(int t, int *n) {
  switch (t) { case A: *n = sizeof AREP - 1; return AREP; case W: *n = sizeof WREP - 1; return WREP; case E: *n = sizeof EREP - 1; return EREP; case T1: *n = 9; return "the cat b\n"; case T2: *n = 10; return "^the cat c\n"; default: *n = 3; return "ab\n"; } }
static const struct tool { const char *name, *bools, *strs; int lo, hi, out; int ty[3]; } TOOLS[] = {
  {"accci", "", "", 2, 999, -1, {A, A, A}}, {"accdist", "", "", 1, 999, -1, {A, A, A}}, {"accsum", "", "", 2, 999, -1, {A, A, A}}, {"accuracy", "", "", 2, 3, 2, {T1, T2, T2}},
  {"editop", "D", "", 2, 3, 2, {T1, T2, T2}}, {"editopcost", "", "", 1, 2, -1, {E, E, E}}, {"editopsum", "", "", 2, 999, -1, {E, E, E}}, {"groupacc", "", "", 2, 3, 2, {G, A, A}},
  {"ngram", "", "n", 1, 999, -1, {T1, T2, T2}}, {"nonstopacc", "", "", 2, 2, -1, {T1, W, W}}, {"synctext", "HisT", "", 2, 999, -1, {T1, T2, T1}}, {"vote", "DO", "osw", 2, 16, -1, {T1, T2, T1}},
  {"wordacc", "", "S", 2, 3, 2, {T1, T2, T2}}, {"wordaccci", "", "", 2, 999, -1, {W, W, W}}, {"wordaccdist", "", "", 1, 999, -1, {W, W, W}}, {"wordaccsum", "", "", 2, 999, -1, {W, W, W}}, {"wordfreq", "", "", 1, 999, -1, {T1, T2, T1}},
};
#define NAMES 24
static char fname[NAMES][12]; static int nfile; /* the files there are before the run */
static const struct tool *t;
static char arg[24][24]; static const char *av[24]; static int role[24]; /* 0 file, 1 option, 2 value of the option before */
static char o1[20000], o2[20000];
static int isfile(const char *s) { int i; for (i = 0; i < nfile; i++) if (!strcmp(s, fname[i])) return 1; return 0; }
static int nodir(const char *s) { return !strncmp(s, "nodir/", 6); }
static void mkfile(const char *name, int ty) { int n; const char *c = CONT(ty, &n); strcpy(fname[nfile++], name); sym_file(name, c, n); }
static void unchanged(int ty, const char *name) { int n, i, same = 1; const char *c = CONT(ty, &n); sym_assert(sym_fsize(name) == n, "files are as they were"); if (sym_fread(name, 0, o1, n) != n) same = 0; for (i = 0; i < n; i++) same &= o1[i] == c[i]; sym_assert(same, "files are as they were"); }
static int frac(const char *s) { return s[0] >= '1' && s[0] <= '9' && s[1] == '/' && s[2] >= '1' && s[2] <= '9' && s[0] <= s[2] && !s[3]; }
void harness_main(void) {
  int n, i, j, k, nf = 0, usage = 0, err = 0, st, opts = 0, kinds = sym_param("kinds", 4), many = sym_param("many", 0); const char *val[128] = {0}, *files[24], *vo = 0; int bo[128] = {0}; long len, l2; char m[40];
  for (i = 0; i < 17; i++) if (i == sym_param("tool", 0)) t = &TOOLS[i];
  n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 3));
  { int ty[NAMES]; for (i = 0; i < (many ? many : 3); i++) { sprintf(m, "f%d", i); ty[i] = t->ty[i > 2 ? 2 : i]; mkfile(m, ty[i]); } }
  for (i = j = 0; i < n; i++) {
    int kd = many ? 0 : symlen("kind", 0, kinds);
    av[i] = arg[i];
    if (kd == 0) { sprintf(arg[i], "f%d", j); if (j < (many ? many : 3) - 1) j++; }
    else if (kd == 1) strcpy(arg[i], "no");
    else if (kd == 2) { /* "-" and up to two arbitrary bytes */
      int L = symlen("olen", 0, sym_param("ol", 2)); arg[i][0] = '-'; for (k = 0; k < L; k++) arg[i][k + 1] = k && t->strs[0] ? sym_range("o", '0', '4') : sym_range("o", 1, 255); }
    else if (kd == 3) { static const char *H[] = {"-hel", "-help", "-helpx", "-hx", "-n1", "-s1/2", "-w2/1", "-DT"}; strcpy(arg[i], H[symlen("h", 0, sym_param("hs", 7))]); }
    else if (kd == 4) strcpy(arg[i], "nodir/o");
    else { int L = symlen("vlen", 3, 4); for (k = 0; k < L; k++) arg[i][k] = sym_range("v", k ? 1 : '.', 255); }
  }
  /* what the documentation says about these arguments */
  if (n == 0) usage = 1;
  for (i = 0; i < n && !usage && !err; i++) {
    const char *s = arg[i]; int c = (unsigned char)s[1];
    if (s[0] != '-' || !c) { role[i] = 0; files[nf++] = s; continue; }
    role[i] = 1; opts++;
    for (k = 0; s[k] && s[k] == "-help"[k]; k++) ;
    if (!s[k]) { usage = 1; break; }
    for (k = 0; t->strs[k]; k++) if (c == t->strs[k]) { c = t->strs[k];
      if (val[c]) err = 1; else if (s[2]) val[c] = s + 2; else if (i + 1 < n) { val[c] = arg[++i]; role[i] = 2; } else err = 1;
      goto next; }
    for (k = 0; t->bools[k]; k++) if (c == t->bools[k]) { c = t->bools[k]; if (s[2] || bo[c]) err = 1; bo[c] = 1; goto next; }
    err = 1;
   next:;
  }
  if (!usage && !err) {
    if (nf < t->lo || nf > t->hi) err = 1;
    if (bo['T'] && nf > 2) err = 1;
    for (i = 0; i < nf && !err; i++) { if (i != t->out ? !isfile(files[i]) : nodir(files[i])) err = 1; else if (i != t->out && !many) { /* the right kind of file */ int x = files[i][1] - '0'; if (t->ty[x] != t->ty[i > 2 ? 2 : i] && (t->ty[i > 2 ? 2 : i] < T1 || t->ty[x] < T1)) { err = 2; } } }
    if (val['n'] && !(val['n'][0] >= '1' && val['n'][0] <= '3' && !val['n'][1])) err = 1;
    if (val['s'] && !frac(val['s'])) err = 1;
    if (val['w'] && !frac(val['w'])) err = 1;
    if (val['S'] && !isfile(val['S'])) err = 1;
    vo = val['o']; if (vo && nodir(vo)) err = 1;
    if (t->out >= 0 && nf == 3) vo = files[2];
  }
  st = sym_execv(t->name, n, av);
  len = sym_fsize("STDERR"); { char eb[300]; long el = sym_fread("STDERR", 0, eb, 299); eb[el > 0 ? el : 0] = 0;
    if (usage) { sym_assert(st == 0, "usage is not an error"); sprintf(m, "Usage:  %s ", t->name); sym_assert(starts(eb, m), "usage is shown"); sym_assert(sym_fsize("STDOUT") == 0, "nothing else is shown"); sym_reach("opt:usage"); }
    else if (err == 2) { sym_reach("opt:kind"); if (st) { sprintf(m, "%s: ", t->name); sym_assert(starts(eb, m), "error message"); } }
    else if (err) { sym_assert(st == 1, "exit status tells the error"); sprintf(m, "%s: ", t->name); sym_assert(starts(eb, m), "error message"); sym_assert(eb[el - 1] == '\n', "error message"); sym_reach("opt:error"); }
    else { sym_assert(st == 0, "valid arguments are accepted"); sym_assert(len == 0, "no message without an error"); sym_reach("opt:good"); } }
  /* files */
  for (i = 0; i < nfile; i++) if (st || usage || !vo || strcmp(vo, fname[i])) unchanged(t->ty[i > 2 ? 2 : i], fname[i]);
  if (st || usage) { sym_assert(sym_fsize("no") < 0, "no output on an error"); sym_assert(sym_fsize("-") < 0, "no output on an error"); if (vo && !isfile(vo)) sym_assert(sym_fsize(vo) < 0, "no output on an error"); }
  if (usage || err) { sym_reach("done"); return; }
  len = sym_fread(vo ? vo : "STDOUT", 0, o1, sizeof o1); sym_assert(len > 0, "there is a report"); if (vo && !bo['D']) sym_assert(sym_fsize("STDOUT") == 0, "the report is in the file");
  /* the same options in front, the files after them */
  if (!opts) { sym_reach("done"); return; }
  { const char *b[24]; int p = 0, same = 1, q; char *ov = "out2";
    for (i = n - 1; i >= 0; i--) if (role[i] == 1) { if (i + 1 < n && role[i + 1] == 2 && vo && vo == arg[i + 1]) { b[p++] = arg[i]; b[p++] = ov; } else if (vo == arg[i] + 2) { strcpy(m, "-oout2"); b[p++] = m; } else { b[p++] = arg[i]; if (i + 1 < n && role[i + 1] == 2) b[p++] = arg[i + 1]; } }
    for (i = q = 0; i < n; i++) if (role[i] == 0) { b[p++] = t->out == q ? ov : arg[i]; q++; }
    sym_assert(sym_execv(t->name, p, b) == 0, "options may come in any order");
    l2 = sym_fread(vo ? ov : "STDOUT", 0, o2, sizeof o2); sym_assert(l2 == len, "options may come in any order"); for (i = 0; i < len && i < l2; i++) same &= o1[i] == o2[i]; sym_assert(same, "options may come in any order"); sym_reach("opt:order"); }
  sym_reach("done");
}
