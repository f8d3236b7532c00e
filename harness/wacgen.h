#ifndef WACGEN_H
#define WACGEN_H
#include "wacparse.h"
#define NSW 3
#define NNW 7
static const char *SW[NSW] = {"a", "because", "the"};
static const char *NW[NNW] = {"_q", "42", "x1", "zz", "zz't", "\xC3\xA9t\xC3\xA9", "wwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwwww"};
static const int DI[4] = {1, 2, 10, 11}, PI[3] = {1, 2, 8};
struct wsrc { long words, miss, sc[NSW], sm[NSW], nc[NNW], nm[NNW], dc[4], dm[4], pc[3], pm[3]; };
static long watom(const char *n, int nd) { static const long p[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000}; if (nd == 10) return sym_range(n, 1000000000, 4999999999); return sym_range(n, 0, p[nd] - 1); }
static int wcap(const char *w) { int n = strlen(w); return n > 50 ? 50 : n; }
static int wrow(char *b, long c, long m, int pz) { int k = 0; put_long(b, &k, c, 8); b[k++] = ' '; put_long(b, &k, m, 8); k += put_s(b + k, pz ? "   ------   " : "    50.00   "); return k; }
/* length rows: one per distinct word length */
static int wlens(char *b, const char **w, long *c, long *m, int n, long mask) {
  int k = 0, l, i; long tc = 0, tm = 0; char t[16];
  for (l = 1; l <= 50; l++) { long x = 0, y = 0; int in = 0; for (i = 0; i < n; i++) if ((mask >> i & 1) && wcap(w[i]) == l) { in = 1; x += c[i]; y += m[i]; } if (in) { k += wrow(b + k, x, y, 0); sprintf(t, "    %2d\n", l); k += put_s(b + k, t); tc += x; tm += y; } }
  k += wrow(b + k, tc, tm, mask == 0); k += put_s(b + k, " Total\n"); return k;
}
static void mkwac(const char *f, struct wsrc *r, int nd, long sm, long nm) {
  static char b[6000]; int k = 0, i; long tc = 0, tm = 0; memset(r, 0, sizeof *r);
  for (i = 0; i < NSW; i++) if (sm >> i & 1) { r->sm[i] = watom("smis", nd); r->sc[i] = r->sm[i] + watom("sok", nd); sym_assume(r->sc[i] > 0); r->words += r->sc[i]; r->miss += r->sm[i]; }
  for (i = 0; i < NNW; i++) if (nm >> i & 1) { r->nm[i] = watom("nmis", nd); r->nc[i] = r->nm[i] + watom("nok", nd); sym_assume(r->nc[i] > 0); r->words += r->nc[i]; r->miss += r->nm[i]; }
  for (i = 0; i < 4; i++) if (nm) { r->dm[i] = watom("dmis", nd); r->dc[i] = r->dm[i] + watom("dok", nd) + 1; tc += r->dc[i]; tm += r->dm[i]; }
  for (i = 0; i < 3; i++) if (sm | nm) { r->pm[i] = watom("pmis", nd); r->pc[i] = r->pm[i] + watom("pok", nd) + 1; }
#define S(s) k += put_s(b + k, s)
  S(WTITLE); put_long(b, &k, r->words, 8); S("   Words\n"); put_long(b, &k, r->miss, 8); S("   Misrecognized\n   50.00%  Accuracy\n");
  S("\nStopwords\n   Count   Missed   %Right   Length\n"); k += wlens(b + k, SW, r->sc, r->sm, NSW, sm);
  S("\nNon-stopwords\n   Count   Missed   %Right   Length\n"); k += wlens(b + k, NW, r->nc, r->nm, NNW, nm);
  S("\nDistinct Non-stopwords\n   Count   Missed   %Right   Occurs\n");
  for (i = 0; i < 4; i++) if (nm) { char t[16]; k += wrow(b + k, r->dc[i], r->dm[i], 0); sprintf(t, DI[i] > 10 ? "   >%2d\n" : "    %2d\n", DI[i] > 10 ? 10 : DI[i]); S(t); }
  k += wrow(b + k, tc, tm, nm == 0); S(" Total\n");
  if (sm | nm) {
    S("\nPhrases\n   Count   Missed   %Right   Length\n"); for (i = 0; i < 3; i++) { char t[16]; k += wrow(b + k, r->pc[i], r->pm[i], 0); sprintf(t, "    %2d\n", PI[i]); S(t); }
    if (sm) { S("\nStopwords\n   Count   Missed   %Right   \n"); for (i = 0; i < NSW; i++) if (sm >> i & 1) { k += wrow(b + k, r->sc[i], r->sm[i], 0); S(SW[i]); S("\n"); } }
    if (nm) { S("\nNon-stopwords\n   Count   Missed   %Right   \n"); for (i = 0; i < NNW; i++) if (nm >> i & 1) { k += wrow(b + k, r->nc[i], r->nm[i], 0); S(NW[i]); S("\n"); } }
  }
#undef S
  sym_file(f, b, k);
}
#endif
