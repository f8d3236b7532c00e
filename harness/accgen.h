/* writes consistent character accuracy reports with symbolic counts */
#ifndef ACCGEN_H
#define ACCGEN_H
#include "accparse.h"
#define NPOOL 14
/* in code point order */
static const struct { const char *row; const char *cls; } POOL[NPOOL] = {
  {"{<\\n>}", "ASCII Spacing Characters"}, {"{ }", "ASCII Spacing Characters"}, {"{-}", "ASCII Special Symbols"}, {"{7}", "ASCII Digits"}, {"{<}", "ASCII Special Symbols"},
  {"{A}", "ASCII Uppercase Letters"}, {"{a}", "ASCII Lowercase Letters"}, {"{{}", "ASCII Special Symbols"}, {"{}}", "ASCII Special Symbols"},
  {"{<7F>}", "?"}, {"{\xC3\xA9}", "Latin1 Lowercase Letters"}, {"{\xE2\x97\x8C\xCC\x81}", "?"}, {"{\xE2\x82\xAC}", "?"}, {"{<10FFFF>}", "?"}
};
static const char *CONFS[6] = {"{a}-{b}", "{<\\n>}-{}", "{}-{\xC3\xA9~}", "{ab}-{a}", "{abcdefghijklmnopqrst...}-{<10FFFF>}", "{\xE2\x97\x8C\xCC\x81<\\n>{}-{}}-{<}"};
struct arep {
  long chars, errors, rej, susp, fals, mk[4], un[4], tm;
  long cnt[NPOOL], mis[NPOOL], ce[6], cm[6];
};
static long at(const char *n, int nd) { static const long p[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000}; if (nd == 10) return sym_range(n, 1000000000, 4999999999); return sym_range(n, 0, p[nd] - 1); }
/* rows: bit mask over POOL, confs: bit mask over CONFS */
static void mkacc(const char *f, struct arep *r, int nd, long rows, long confs) {
  static char b[6000]; int k = 0, i, q; long E = 0, M = 0, C = 0, T = 0;
  memset(r, 0, sizeof *r);
  for (i = 0; i < NPOOL; i++) if (rows >> i & 1) { long right = at("right", nd); r->mis[i] = at("mis", nd); r->cnt[i] = right + r->mis[i]; sym_assume(r->cnt[i] > 0); C += r->cnt[i]; T += r->mis[i]; }
  for (i = 0; i < 6; i++) if (confs >> i & 1) {
    for (q = 0; q < 3; q++) { long m = at("mk", nd), u = at("un", nd); r->mk[q] += m; r->un[q] += u; r->cm[i] += m; r->ce[i] += m + u; }
    sym_assume(r->ce[i] > 0); E += r->ce[i]; M += r->cm[i]; }
  if (rows) sym_assume(T <= E);
  r->chars = C; r->errors = E; r->tm = T; r->mk[3] = M; r->un[3] = E - M;
  if (!(rows | confs)) ; else { r->rej = at("rej", nd); r->fals = at("fals", nd); r->susp = r->fals + at("susp", nd); }
#define N(v) do { k += sprintf(b + k, "%8ld", (long)(v)); } while (0)
#define S(s) k += put_s(b + k, s)
  S("ocreval Accuracy Report Version 7.0\n" DASH); N(C); S("   Characters\n"); N(E); S("   Errors\n   50.00%  Accuracy\n\n");
  N(r->rej); S("   Reject Characters\n"); N(r->susp); S("   Suspect Markers\n"); N(r->fals); S("   False Marks\n    0.00%  Characters Marked\n   50.00%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n");
  for (i = 0; i < 4; i++) { N(r->mk[i]); if (i < 3) S(" "); } S("   Marked\n");
  for (i = 0; i < 4; i++) { N(r->un[i]); if (i < 3) S(" "); } S("   Unmarked\n");
  for (i = 0; i < 4; i++) { N(r->mk[i] + r->un[i]); if (i < 3) S(" "); } S("   Total\n\n   Count   Missed   %Right\n");
  /* class rows are not read back: totals only */
  N(C); S(" "); N(T); S("    50.00   Total\n");
  if (confs) { S("\n  Errors   Marked   Correct-Generated\n"); for (i = 0; i < 6; i++) if (confs >> i & 1) { N(r->ce[i]); S(" "); N(r->cm[i]); S("   "); S(CONFS[i]); S("\n"); } }
  if (rows) { S("\n   Count   Missed   %Right\n"); for (i = 0; i < NPOOL; i++) if (rows >> i & 1) { N(r->cnt[i]); S(" "); N(r->mis[i]); S("    50.00   "); S(POOL[i].row); S("\n"); } }
  sym_file(f, b, k);
}
static void mkempty(const char *f) { static struct arep r; mkacc(f, &r, 1, 0, 0); }
#endif
