/* word accuracy reports: writing consistent ones with symbolic counts, and parsing */
#ifndef WACPARSE_H
#define WACPARSE_H
#include "util.h"
#ifndef WTERMS
#define WTERMS 40
#endif
#ifndef WLEN
#define WLEN 110
#endif
struct wtab { int n; char k[WTERMS][WLEN]; long c[WTERMS], m[WTERMS]; };
struct wrep { long words, miss; long sc[52], sm[52], nc[52], nm[52], dc[13], dm[13], pc[13], pm[13]; struct wtab s, t; };
#define WTITLE "ocreval Word Accuracy Report Version 7.0\n----------------------------------------\n"
static void wpct(char **pp, long num, long den, const char *msg) {
  char b[40]; int i;
  if (den == 0) strcpy(b, "  ------"); else sprintf(b, "%8.2f", 100.0 * (double)num / (double)den);
  for (i = 0; b[i]; i++) { sym_assert((*pp)[i] == b[i], msg); }
  *pp += i;
}
static char *wnums(char *p, long *c, long *m, int limit, const char *title, int excess, int total) {
  char b[60]; int i, last = 0;
  sprintf(b, "\n%s\n", title); p = expect_line(p, b, "section title"); p = expect_line(p, excess ? "   Count   Missed   %Right   Occurs\n" : "   Count   Missed   %Right   Length\n", "section header");
  while (*p && *p != '\n') {
    long x = nnum(&p), y = nnum(&p); p = expect_line(p, " ", "row"); wpct(&p, x - y, x, "percentage"); p = expect_line(p, "   ", "row");
    if (total && starts(p, " Total\n")) { p += 7; c[0] = x; m[0] = y; sym_assert(*p == '\n' || !*p, "nothing after the total"); return p; }
    if (excess && starts(p, "   >")) { sprintf(b, "   >%2d\n", limit); p = expect_line(p, b, "excess row"); i = limit + 1; }
    else { long v = 0; char *q = p; long k = sym_num(p, &v); sym_assert(k > 0, "row key"); i = v; sym_assert(i > last && i <= limit, "rows in order, each once"); sprintf(b, "    %2d\n", i); p = expect_line(q, b, "row key"); }
    sym_assert(i > last, "rows in order, each once"); last = i; sym_assert(x > 0, "no empty rows"); c[i] = x; m[i] = y;
  }
  sym_assert(!total, "total row"); return p;
}
static char *wterms(char *p, struct wtab *t, const char *title) {
  char b[60]; sprintf(b, "\n%s\n", title); p = expect_line(p, b, "word list title"); p = expect_line(p, "   Count   Missed   %Right   \n", "word list header");
  while (*p && *p != '\n') {
    long x = nnum(&p), y = nnum(&p); int i = 0; p = expect_line(p, " ", "row"); wpct(&p, x - y, x, "percentage of a word"); p = expect_line(p, "   ", "row");
    sym_assert(t->n < WTERMS, "too many words"); t->c[t->n] = x; t->m[t->n] = y;
    while (*p && *p != '\n') { sym_assert(i < WLEN - 1, "word too long"); t->k[t->n][i++] = *p++; } t->k[t->n++][i] = 0; if (*p) p++;
  }
  return p;
}
static int parse_wac(const char *file, struct wrep *r) {
  static char buf[MAXF]; long len; char *p;
  slurp_buf(file, buf, MAXF, &len); if (len < 0) return 0;
  memset(r, 0, sizeof *r);
  p = expect_line(buf, WTITLE, "title"); r->words = nnum(&p); p = expect_line(p, "   Words\n", "Words row"); r->miss = nnum(&p); p = expect_line(p, "   Misrecognized\n", "Misrecognized row");
  wpct(&p, r->words - r->miss, r->words, "accuracy percentage"); p = expect_line(p, "%  Accuracy\n", "Accuracy row");
  p = wnums(p, r->sc, r->sm, 50, "Stopwords", 0, 1); p = wnums(p, r->nc, r->nm, 50, "Non-stopwords", 0, 1); p = wnums(p, r->dc, r->dm, 10, "Distinct Non-stopwords", 1, 1);
  if (sym_conc(r->words > 0)) {
    p = wnums(p, r->pc, r->pm, 8, "Phrases", 0, 0);
    if (sym_conc(r->sc[0] > 0)) p = wterms(p, &r->s, "Stopwords");
    if (sym_conc(r->nc[0] > 0)) p = wterms(p, &r->t, "Non-stopwords");
  }
  sym_assert(*p == 0, "end of the report"); return 1;
}
/* the bookkeeping every report of wordacc satisfies */
static void wac_consistent(struct wrep *r) {
  int i; long c, m;
  for (c = m = 0, i = 1; i < 52; i++) { c += r->sc[i]; m += r->sm[i]; } sym_assert((c == r->sc[0]) & (m == r->sm[0]), "length rows of the stopwords add up");
  for (c = m = 0, i = 1; i < 52; i++) { c += r->nc[i]; m += r->nm[i]; } sym_assert((c == r->nc[0]) & (m == r->nm[0]), "length rows of the non-stopwords add up");
  sym_assert((r->sc[0] + r->nc[0] == r->words) & (r->sm[0] + r->nm[0] == r->miss), "stopwords and non-stopwords are all words");
  for (c = m = 0, i = 1; i < 13; i++) { c += r->dc[i]; m += r->dm[i]; } sym_assert((c == r->dc[0]) & (m == r->dm[0]), "rows of distinct words add up");
  for (c = m = 0, i = 0; i < r->s.n; i++) { c += r->s.c[i]; m += r->s.m[i]; sym_assert((r->s.m[i] >= 0) & (r->s.m[i] <= r->s.c[i]), "misses within the count"); if (i) sym_assert(strcmp(r->s.k[i - 1], r->s.k[i]) < 0, "stopwords sorted, each once"); } sym_assert((c == r->sc[0]) & (m == r->sm[0]), "the stopwords listed add up");
  for (c = m = 0, i = 0; i < r->t.n; i++) { c += r->t.c[i]; m += r->t.m[i]; sym_assert((r->t.m[i] >= 0) & (r->t.m[i] <= r->t.c[i]), "misses within the count"); if (i) sym_assert(strcmp(r->t.k[i - 1], r->t.k[i]) < 0, "non-stopwords sorted, each once"); } sym_assert((c == r->nc[0]) & (m == r->nm[0]), "the non-stopwords listed add up");
}
#endif
