/* synctext: the aligned output against the segments of the alignment */
#include "util.h"
#include "sync.h"
#define K 4
#define W 12
static struct otext T[K]; static Text text[K]; static Synclist sl, sl2;
static const char *FN[K] = {"t0", "longer1", "x", "t3"};
static unsigned char e[6000], o[6000]; static int en; static int nt, show;
static void gen(int t) {
  unsigned char b[3 * W]; int i, p = 0, n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 2)), al = sym_param("alpha", 0);
  for (i = 0; i < n; i++) {
    static const char *A[] = {"ab", "aAb", "a\nb", "ab~", "abcdefgh", "a\tb"};
    if (sym_param("marks", 0) && symlen("mark", 0, 1)) b[p++] = '^';
    b[p++] = pick("c", A[al]);
  }
  sym_file(FN[t], b, p); oread(&T[t], b, p, 1, 1, sym_param("i", 0));
  for (i = 0; i < T[t].n; i++) append_char(&text[t], 0, T[t].c[i]);
}
static void S(const char *s) { while (*s) e[en++] = *s++; }
static void sep(void) { int i; for (i = 0; i < 79; i++) e[en++] = '='; e[en++] = '\n'; }
static void num(long v) { char b[24]; sprintf(b, "%ld", v); S(b); }
static void ch(int su, int c) { if (show && su) e[en++] = '^'; e[en++] = c; }
static void pad(const char *s, int w) { int k = strlen(s); S(s); for (; k < w; k++) e[en++] = ' '; }
static void trans(Synclist *s, int t) {
  Sync *y; long i; sep(); S("\n");
  for (y = s->first; y; y = y->next) { if (y->match) { S("{"); num(*y->match); S(":"); } for (i = y->substr->start; i <= y->substr->stop; i++) ch(T[t].susp[i], T[t].c[i]); if (y->match) S("}"); }
  S("\n");
}
/* the texts can be put together again from the running text and the footnotes */
static void rebuild(void) {
  int pos[K] = {0}, t, i, foot = 0; Sync *y;
  for (y = sl.first; y; y = y->next) for (t = 0; t < nt; t++) { sym_assert(y->substr[t].start == pos[t], "segments in order"); pos[t] += y->substr[t].length; }
  for (t = 0; t < nt; t++) sym_assert(pos[t] == T[t].n, "every character of every text is in the alignment");
  (void)i; (void)foot;
}
void harness_main(void) {
  int i, t, ac = 0, foot = 0, mx = 0, H = sym_param("H", 0), tr = sym_param("T", 0), same = 1, swap = sym_param("late", 0); const char *a[10]; Sync *y; long on;
  nt = sym_param("k", 2); show = sym_param("s", 0);
  for (t = 0; t < nt; t++) gen(t);
  if (swap) a[ac++] = FN[0];
  if (show) a[ac++] = "-s"; if (H) a[ac++] = "-H"; if (tr) a[ac++] = "-T"; if (sym_param("i", 0)) a[ac++] = "-i";
  for (t = swap ? 1 : 0; t < nt; t++) a[ac++] = FN[t];
  if (tr) transpose_sync(&sl, &sl2, &text[0], &text[1]); else if (H || nt > 2) synchronize(&sl, nt, text); else fastukk_sync(&sl, text);
  sym_assert(sym_execv("synctext", ac, a) == 0, "exit status");
  on = sym_fread("STDOUT", 0, o, sizeof o); 
  if (tr) { trans(&sl, 0); trans(&sl2, 1); }
  else {
    rebuild(); sep(); S("\n");
    for (y = sl.first; y; y = y->next)
      if (y->match) for (i = 0; i < y->substr[0].length; i++) { int su = 0; for (t = 0; t < nt; t++) su |= T[t].susp[y->substr[t].start + i]; ch(su, T[0].c[y->substr[0].start + i]); }
      else { S("{"); num(++foot); S("}"); }
    S("\n");
    for (t = 0; t < nt; t++) if ((int)strlen(FN[t]) > mx) mx = strlen(FN[t]);
    foot = 0;
    for (y = sl.first; y; y = y->next) if (!y->match) {
      sep(); S("{"); num(++foot); S("}\n");
      for (t = 0; t < nt; t++) { pad(FN[t], mx); S(" {"); for (i = y->substr[t].start; i <= y->substr[t].stop; i++) { ch(T[t].susp[i], T[t].c[i]); if (sym_conc(T[t].c[i] == '\n')) { pad("", mx); S("  "); } } S("}\n"); }
    }
  }
  sep();
  sym_assert(on == en, "length of the output"); for (i = 0; i < en && i < on; i++) same &= o[i] == e[i]; sym_assert(same, "every text is shown, matched once and different in its footnotes");
  sym_reach("done"); if (foot) sym_reach("opt:footnotes");
}
