/* vote: the voted text against the votes of the differences of the alignment */
#include "util.h"
#include "sync.h"
#define K 16
#define W 12
static struct otext T[K]; static Text text[K]; static Synclist sl;
static const char *FN[K] = {"v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "va", "vb", "vc", "vd", "ve", "vf"};
static int nv;
static void gen(int t) {
  unsigned char b[2 * W]; int i, p = 0, n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 2)), al = sym_param("alpha", 0), marks = sym_param("marks", 1);
  for (i = 0; i < n; i++) {
    static const char *A[] = {"ab~", "abc", "ab", "abcdefgh"}; 
    if (marks && (marks > 1 || i == 0) && symlen("mark", 0, 1)) b[p++] = '^';
    b[p++] = pick("c", A[al]);
    if (sym_param("space", 0) && i + 1 < n && symlen("sp", 0, 1)) b[p++] = ' ';
  }
  if (sym_param("nl", 0)) b[p++] = '\n';
  sym_file(FN[t], b, p); oread(&T[t], b, p, 1, 1, 0);
}
/* doubled distance of a voter from the medians of the pair counts */
static long distance(int q) {
  long d = 0; int t, i, u, j, k; 
  for (t = 0; t < nv; t++) for (i = 0; i + 1 < T[t].n; i++) {
    long c[K], m; int dup = 0, rej = sym_conc((T[t].c[i] == '~') | (T[t].c[i + 1] == '~'));
    for (u = 0; u < nv; u++) for (c[u] = 0, j = 0; j + 1 < T[u].n; j++) if (sym_conc((T[u].c[j] == T[t].c[i]) & (T[u].c[j + 1] == T[t].c[i + 1]))) { c[u]++; if (u < t || (u == t && j < i)) dup = 1; }
    if (dup) continue;
    k = c[q];
    for (u = 0; u < nv; u++) for (j = u + 1; j < nv; j++) if (c[j] < c[u]) { long x = c[u]; c[u] = c[j]; c[j] = x; }
    m = rej ? 0 : nv & 1 ? 2 * c[nv / 2] : c[nv / 2 - 1] + c[nv / 2];
    d += 2 * k > m ? 2 * k - m : m - 2 * k;
  }
  return d;
}
void harness_main(void) {
  static unsigned char e[400], o[400]; int en = 0, i, t, ac = 0, av = 0, ord[K], thr = 0, uw = 1, sw = 1; const char *a[30]; char sf[4] = "1/1", wf[4] = "1/1"; long on; Sync *y; int same = 1;
  int sm = sym_param("s", 0), wm = sym_param("w", 0), opt = sym_param("O", 0), out = sym_param("o", 0);
  nv = sym_param("k", 2);
  if (sym_param("split", 0)) { /* two or three files, each given by several voters; two takes turns, one after another */
    int g = sym_param("split", 0), turn = symlen("turn", 0, 1), at = turn ? 0 : symlen("at", 1, nv - g + 1), at2 = g < 3 || turn ? nv : symlen("at2", at + 1, nv - 1);
    for (t = 0; t < g; t++) gen(t);
    for (t = nv - 1; t >= 0; t--) { int q = turn ? t % g : t < at ? 0 : t < at2 ? 1 : 2; T[t] = T[q]; FN[t] = FN[q]; }
  } else
  for (t = 0; t < nv; t++) if (t && sym_param("same", 0)) { T[t] = T[0]; FN[t] = FN[0]; } else gen(t);
  for (t = 0; t < nv; t++) ord[t] = t;
  av = opt && nv > 3 ? 3 : nv;
  if (opt) { long d[K]; for (t = 0; t < nv; t++) d[t] = distance(t); for (i = 0; i < nv; i++) for (t = nv - 1; t > i; t--) if (d[ord[t]] < d[ord[t - 1]]) { int x = ord[t]; ord[t] = ord[t - 1]; ord[t - 1] = x; } a[ac++] = "-O"; }
  if (wm) { wf[2] = '0' + symlen("wn", 1, wm); wf[0] = '0' + symlen("wm", 1, wf[2] - '0'); a[ac++] = "-w"; a[ac++] = wf; sw = wf[0] - '0'; uw = wf[2] - '0'; }
  if (sm) { sf[2] = '0' + symlen("sn", 1, sm); sf[0] = '0' + symlen("sm", 1, sf[2] - '0'); a[ac++] = "-s"; a[ac++] = sf; thr = av * uw * (sf[0] - '0') / (sf[2] - '0'); }
  if (out) { a[ac++] = "-o"; a[ac++] = "out"; }
  for (t = 0; t < nv; t++) a[ac++] = FN[t];
  for (t = 0; t < av; t++) for (i = 0; i < T[ord[t]].n; i++) append_char(&text[t], 0, T[ord[t]].c[i]);
  synchronize(&sl, av, text);
  sym_assert(sym_execv("vote", ac, a) == 0, "exit status");
  on = sym_fread(out ? "out" : "STDOUT", 0, o, sizeof o); sym_assert(on >= 0, "output written");
  for (y = sl.first; y; y = y->next) {
    int pos; 
    for (pos = 0; ; pos++) {
      int cand[K], cv[K], n = 0, j, best = 0, c[K]; 
      for (t = 0; t < av; t++) {
        int w = uw; c[t] = -1;
        if (pos < y->substr[t].length) { struct otext *x = &T[ord[t]]; i = y->substr[t].start + pos; c[t] = x->c[i]; if (sym_conc(c[t] == '~')) continue; if (x->susp[i]) w = sw; }
        for (j = 0; j < n && !sym_conc(c[cand[j]] == c[t]); j++);
        if (j == n) { cand[n] = t; cv[n++] = 0; } cv[j] += w;
      }
      if (!n) { e[en++] = '~'; if (thr) (void)0; continue; }
      for (j = 1; j < n; j++) if (cv[j] > cv[best]) best = j;
      if (c[cand[best]] < 0) break;
      if (cv[best] <= thr) e[en++] = '^';
      e[en++] = c[cand[best]];
      sym_assert(!y->match || n == 1, "agreed passages");
    }
  }
  if (out) { sym_assert(sym_fsize("STDOUT") == 0, "nothing on standard output with an output file"); }
  sym_assert(on == en, "length of the voted text"); for (i = 0; i < en; i++) same &= o[i] == e[i]; sym_assert(same, "the voted text is the best vote at each position");
  if (sym_param("same", 0) && !sm) { sym_assert(en == T[0].n, "identical inputs"); for (i = 0; i < en; i++) sym_assert(e[i] == T[0].c[i], "identical inputs reproduce the input"); }
  sym_reach("done"); if (sl.count > 1) sym_reach("opt:mixed");
}
