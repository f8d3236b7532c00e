/* shared by the harnesses */
#ifndef UTIL_H
#define UTIL_H
#include "symrt.h"
#define MAXF 60000
/* alphabet choice: a byte taken from the string set, as one symbolic index */
static unsigned char pick(const char *name, const char *set) {
  unsigned long i = sym_range(name, 0, strlen(set) - 1);
  return (unsigned char)set[i];
}
static long symlen(const char *name, long lo, long hi) { return sym_conc((long)sym_range(name, lo, hi)); }
static long sym_max(long a, long b) { return sym_ite(a > b, a, b); }
static long sym_min(long a, long b) { return sym_ite(a < b, a, b); }

/* ---- oracle: the documented reading of a text file (ASCII) ---- */
struct otext { int n; unsigned char c[256]; unsigned char susp[256]; };
static int oblank(int c) { return c == ' ' || c == '\t' || c == 11 || c == 12 || c == 13; }
/* markers are dropped and mark the next character; blanks become spaces; no
   blank at the start or end of a line; runs of blanks are one; no empty lines at the start, no empty lines */
static void oread(struct otext *t, const unsigned char *b, int n, int markers, int normalize, int lower) {
  int i, s = 0, k = 0;
  unsigned char raw[256], rs[256];
  for (i = 0; i < n; i++) {
    if (markers && b[i] == '^') { s = 1; continue; }
    raw[k] = b[i]; rs[k] = s; k++; s = 0;
  }
  if (!normalize) { for (i = 0; i < k; i++) { t->c[i] = raw[i]; t->susp[i] = rs[i]; } t->n = k; }
  else {
    int out = 0, have = 0, pending = 0, psusp = 0;
    /* have: a non-blank was seen on this line */
    for (i = 0; i < k; i++) {
      if (oblank(raw[i])) { if (have) { pending = 1; psusp |= rs[i]; } continue; }
      if (raw[i] == '\n') {
        pending = psusp = 0;
        if (have) { t->c[out] = '\n'; t->susp[out] = rs[i]; out++; have = 0; }
        continue;
      }
      if (pending) { t->c[out] = ' '; t->susp[out] = psusp; out++; pending = psusp = 0; }
      t->c[out] = raw[i]; t->susp[out] = rs[i]; out++; have = 1;
    }
    t->n = out;
  }
  if (lower) for (i = 0; i < t->n; i++) if (t->c[i] >= 'A' && t->c[i] <= 'Z') t->c[i] += 32;
}
/* edit distance, c never matches where reject[c] */
static int odist(const struct otext *a, const struct otext *b) {
  static int d[64][64]; int i, j;
  for (i = 0; i <= a->n; i++) for (j = 0; j <= b->n; j++) {
    if (!i) d[i][j] = j; else if (!j) d[i][j] = i;
    else {
      int x = d[i - 1][j - 1] + !(a->c[i - 1] == b->c[j - 1] && a->c[i - 1] != '~');
      if (d[i - 1][j] + 1 < x) x = d[i - 1][j] + 1;
      if (d[i][j - 1] + 1 < x) x = d[i][j - 1] + 1;
      d[i][j] = x;
    }
  }
  return d[a->n][b->n];
}

/* ---- report building: numbers as symbolic digits ---- */
static int put_s(char *d, const char *s) { int k = strlen(s); memcpy(d, s, k); return k; }
/* writes a number of at most nd digits right-justified in w columns, returns its value */
static long put_num(char *d, int *k, const char *name, int nd, int w) {
  static const unsigned long p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000};
  long v = sym_range(name, 0, p10[nd] - 1); int i;
  for (i = nd; i < w; i++) d[(*k)++] = ' ';
  sym_digits(d + *k, v, nd); *k += nd;
  return v;
}
static void put_long(char *d, int *k, long v, int w) { char b[32]; int i; sprintf(b, "%*ld", w, v); for (i = 0; b[i]; i++) d[(*k)++] = b[i]; }
/* ---- report parsing ---- */
static char *line_end(char *p) { while (*p && *p != '\n') p++; return p; }
static char *next_line(char *p) { p = line_end(p); return *p ? p + 1 : p; }
static int starts(const char *p, const char *s) { while (*s) { if (*p != *s) return 0; p++; s++; } return 1; }
static long nnum(char **p) { long v = 0; long k = sym_num(*p, &v); sym_assert(k > 0, "number expected in a report"); *p += k; return v; }
/* expects exactly this line (with its newline) */
static char *expect_line(char *p, const char *s, const char *msg) { sym_assert(starts(p, s), msg); return p + strlen(s); }
#endif
