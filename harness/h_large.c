/* a count of a report, however large, enters the result like a small one */
#include "util.h"
#include <stdio.h>
#include "reports.h"
static const struct { const char *name; int ty, two, pre; } TOOL[] = {{"accsum", 0, 1, 0}, {"groupacc", 0, 0, 1}, {"wordaccsum", 1, 1, 0}, {"editopsum", 2, 1, 0}, {"editopcost", 2, 0, 0}, {"editopcost", 2, 1, 0}};
#define NL 160
struct out { int n, k[NL]; long v[NL][4]; char key[NL][100]; } O[3];
static const long WIN[] = {32768, 65536, 100000000, 1000000000, 2147483648, 4294967296, 10000000000}; enum { NW = sizeof WIN / sizeof *WIN };
static char b[4000], ob[20000];
static int isd(int c) { return c >= '0' && c <= '9'; }
static void run(int tool, struct out *o, int flip) {
  const char *a[4]; int ac = 0; char *p; long len;
  if (TOOL[tool].pre) a[ac++] = "pre";
  a[ac++] = flip ? "g" : "f"; if (TOOL[tool].two) a[ac++] = flip ? "f" : "g";
  sym_assert(sym_execv(TOOL[tool].name, ac, a) == 0, "exit status");
  len = sym_fread("STDOUT", 0, ob, sizeof ob - 1); ob[len] = 0;
  for (p = ob, o->n = 0; *p; o->n++) {
    char *e = line_end(p), *q = p; int k = 0; char *d = o->key[o->n];
    for (;;) { char *r = q; long v; while (*r == ' ') r++; if (!(*r == '-' || isd(*r)) || k == 4) break; { int w = sym_num(r, &v); if (!w || r[w] == '.') break; r += w; } o->v[o->n][k++] = v; q = r; }
    o->k[o->n] = k;
    while (*q == ' ' || *q == '.' || *q == '%' || *q == '-' || isd(*q)) q++;
    while (q < e) *d++ = *q++; *d = 0;
    p = *e ? e + 1 : e;
  }
}
void harness_main(void) {
  int tool = sym_param("tool", 0), ty = TOOL[tool].ty, n, i, j, k, f, cnt = 0, pos[100], end[100], line = 0, tok = 0, brace = 0, c, w; const char *s = BASE[ty]; long base, v, d;
  n = strlen(s);
  for (i = 0; i < n; i++) {
    if (s[i] == '\n') { line++; tok = 0; brace = 0; } if (s[i] == '{') brace = 1;
    if (!isd(s[i]) || (i && isd(s[i - 1]))) continue;
    for (k = i; isd(s[k]); k++) ;
    if (line >= 2 && !brace && s[k] != '.' && s[i - 1] != '.' && (ty == 0 || tok < 2) && !(ty == 2 && tok == 1) && !(ty == 1 && s[i - 1] == '>')) { pos[cnt] = i; end[cnt++] = k; }
    tok++;
  }
  f = symlen("field", 0, cnt - 1); i = pos[f]; k = end[f];
  for (base = 0, j = i; j < k; j++) base = base * 10 + s[j] - '0';
  sym_file("g", s, n); sym_file("pre", "\n <a\xC3\xA9", 6);
  sym_file("f", s, n); run(tool, &O[0], 0);
  for (c = 1; c < 3; c++) {
    memcpy(b, s, i);
    if (c == 1) w = sprintf(b + i, "%ld", base + 1); else { long lo, span = sym_param("span", 0); if (span) { lo = WIN[symlen("window", 0, NW - 1)] - span / 2; w = sprintf(b + i, "%ld", lo + span); v = lo + sym_range("v", 0, span); } else { w = 12; v = sym_range("v", 1000000000, 999999999999); } sym_digits(b + i, v, w); }
    memcpy(b + i + w, s + k, n - k); sym_file("f", b, n + w - (k - i));
    run(tool, &O[c], c == 2 && TOOL[tool].two && tool != 5);
    sym_assert(O[c].n == O[0].n, "the same rows");
  }
  d = v - base;
  for (i = 0; i + 1 < O[2].n; i++) if (strstr(O[2].key[i], "}-{") && strstr(O[2].key[i + 1], "}-{")) { sym_assert(O[2].v[i][0] >= O[2].v[i + 1][0], "the largest first"); sym_reach("opt:order"); }
  for (i = 0; i < O[0].n; i++) {
    int x = -1, y = -1;
    for (j = 0; j < O[1].n; j++) if (O[1].k[j] == O[0].k[i] && !strcmp(O[1].key[j], O[0].key[i]) && (x < 0 || j == i)) x = j;
    for (j = 0; j < O[2].n; j++) if (O[2].k[j] == O[0].k[i] && !strcmp(O[2].key[j], O[0].key[i]) && (y < 0 || j == i)) y = j;
    sym_assert(x >= 0 && y >= 0, "every row is kept");
    for (j = 0; j < O[0].k[i]; j++) { long m = sym_conc(O[1].v[x][j] - O[0].v[i][j]); sym_assert(O[2].v[y][j] == O[0].v[i][j] + m * d, "a large count is added exactly"); if (m) sym_reach("opt:counts"); }
  }
  sym_reach("done");
}
