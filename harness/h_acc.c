/* accuracy CORRECT GENERATED REPORT for every pair of small texts over an alphabet */
#include "accparse.h"
#include "classref.h"
#include <stdio.h>
static const char *alpha(long k) {
  switch (k) {
  case 0: return "aB~^";
  case 1: return "a \n^";
  case 2: return "a~^";
  case 3: return "aB1.";
  case 4: return "ab~^ \n";
  case 5: return "ab";
  case 6: return "ab~";
  default: return "a\tZ0;\r";
  }
}
/* an optimal alignment that explains the report: operations, marks, confusions and missed characters */
static struct otext a, b; static struct accrep r; static int mt[16], seen;
static void inner(char *d, int c) { char t[16]; int l; show(t, c); l = strlen(t); t[l - 1] = 0; strcat(d, t + 1); }
static int explains(int best) {
  int i = 0, j = 0, k, q, cost = 0, nk = 0; long err = 0, ops[2][4] = {{0}}, fm = 0, miss[128] = {0}, ce[20], cm[20]; static char key[20][110];
  while (i < a.n || j < b.n) {
    int i0 = i, j0 = j, w = 0, c = 0, g = 0, bad = 0; long o[4];
    if (i < a.n && mt[i] == j) { fm += b.susp[j]; i++; j++; continue; }
    while (i < a.n && mt[i] < 0) { if (a.c[i] == '~') w++; else { c++; miss[a.c[i]]++; } i++; }
    while (j < (i < a.n ? mt[i] : b.n)) { g++; bad |= b.c[j] == '~' || b.susp[j]; j++; }
    cost += i - i0 > j - j0 ? i - i0 : j - j0; if (cost > best) return 0;
    g = g > w ? g - w : 0; o[3] = c > g ? c : g; if (!o[3]) continue;
    o[0] = c > g ? c - g : 0; o[1] = c < g ? c : g; o[2] = g > c ? g - c : 0; err += o[3]; for (k = 0; k < 4; k++) ops[!bad][k] += o[k];
    { char t[110] = "{"; for (k = i0; k < i; k++) inner(t, a.c[k]); strcat(t, "}-{"); for (k = j0; k < j; k++) inner(t, b.c[k]); strcat(t, "}");
      for (q = 0; q < nk && strcmp(key[q], t); q++); if (q == nk) { strcpy(key[nk], t); ce[nk] = cm[nk] = 0; nk++; } ce[q] += o[3]; cm[q] += bad ? o[3] : 0; }
  }
  if (cost != best) return 0;
  seen++;
  if (err != r.errors || fm != r.falsem || nk != r.nconf) return 0;
  for (k = 0; k < 4; k++) if (ops[0][k] != r.ops[0][k] || ops[1][k] != r.ops[1][k]) return 0;
  for (q = 0; q < nk; q++) { for (k = 0; k < nk && strcmp(key[q], r.conf[k]); k++); if (k == nk || r.cerr[k] != ce[q] || r.cmark[k] != cm[q]) return 0; }
  for (k = 0; k < r.nch; k++) { char t[16]; for (q = 0; q < 128; q++) { show(t, q); if (!strcmp(t, r.ch[k])) break; } if (q == 128 || miss[q] != r.hmiss[k]) return 0; }
  return 1;
}
static int explained(int i, int j, int best) {
  int q;
  if (i == a.n) return explains(best);
  for (q = j; q < b.n; q++) if (a.c[i] == b.c[q] && a.c[i] != '~') { mt[i] = q; if (explained(i + 1, q + 1, best)) return 1; }
  mt[i] = -1; return explained(i + 1, j, best);
}
void harness_main(void) {
  unsigned char x[16], y[16];
  long n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 2)), m = symlen("m", sym_param("mmin", 0), sym_param("mmax", 2)), i, k; const char *A = alpha(sym_param("alpha", 0)), *A2 = alpha(sym_param("alpha2", sym_param("alpha", 0)));
  long rej = 0, susp = 0, wild = 0, chars = 0;
  for (i = 0; i < n; i++) x[i] = sym_conc(pick("x", A));
  for (i = 0; i < m; i++) y[i] = pick("y", A2);
  sym_file("c.txt", x, n); sym_file("g.txt", y, m);
  oread(&a, x, n, 1, 1, 0); oread(&b, y, m, 1, 1, 0);
  sym_assert(run3("accuracy", "c.txt", "g.txt", "rep") == 0, "exit status");
  sym_assert(parse_acc("rep", &r), "report written");
  acc_consistent(&r);
  for (i = 0; i < a.n; i++) if (a.c[i] == '~') wild++; else chars++;
  for (i = 0; i < b.n; i++) if (b.c[i] == '~') rej++; else susp += b.susp[i];
  sym_assert(r.chars == chars, "number of characters"); sym_assert(r.reject == rej, "number of reject characters"); sym_assert(r.suspect == susp, "number of suspect markers");
  if (!wild) { sym_assert(r.errors == odist(&a, &b), "errors = edit distance"); sym_reach("nowild"); }
  else { sym_assert(r.errors <= odist(&a, &b), "wildcards only lower the errors"); sym_reach("opt:wild"); }
  /* per character rows */
  for (i = 0; i < r.nch; i++) {
    long cnt = 0; char s[16];
    for (k = 0; k < a.n; k++) if (a.c[k] != '~') { show(s, a.c[k]); if (!strcmp(s, r.ch[i])) cnt++; }
    sym_assert(cnt == r.hcnt[i], "character row counts its character");
  }
  for (i = 0; i < b.n; i++) b.c[i] = sym_conc(b.c[i]);
  sym_assert(explained(0, 0, sym_conc(odist(&a, &b))), "an optimal alignment explains operations, marks, confusions and missed characters");
  /* class rows are the sums of the rows of their characters */
  for (k = 0; k < r.ncls; k++) {
    long cnt = 0, mis = 0; int q, f; char t[16];
    for (i = 0; i < r.nch; i++) { for (q = 0; q < 128; q++) { show(t, q); if (!strcmp(t, r.ch[i])) break; } for (f = 0; classref[f].lo > (unsigned)q || classref[f].hi < (unsigned)q; f++); if (!strcmp(classref[f].name, r.cls[k])) { cnt += r.hcnt[i]; mis += r.hmiss[i]; } }
    sym_assert(cnt == r.ccnt[k], "class row counts its characters"); sym_assert(mis == r.cmiss[k], "class row counts its missed characters");
  }
  if (r.ops[0][3] > 0) sym_reach("opt:marked"); if (r.falsem > 0) sym_reach("opt:false"); if (r.errors > 0) sym_reach("errors");
}
