/* long texts: one character of a text of tens of thousands is arbitrary */
#include "util.h"
#include <stdio.h>
#include <stdlib.h>
#include "accparse.h"
static const long NS[] = {32766, 32767, 32768, 65535, 65536, 65537, 70000, 131080};
static const long WS[] = {32767, 32768, 65534, 65535, 65536, 65537, 100000};
static long n, pos; static int c, orig; static char *t, *ob; static long len;
static char *row(const char *title) { /* the count of the row of a list */
  char *p; long k = strlen(title);
  for (p = ob; *p; p = *line_end(p) ? line_end(p) + 1 : line_end(p)) { char *e = line_end(p); if (e - p > k && !memcmp(e - k, title, k) && e[-k - 1] == ' ') return p; }
  return 0;
}
static long cnt(const char *title) { char *p = row(title); return p ? nnum(&p) : 0; }
static void out(const char *f) { len = sym_fsize(f); ob = malloc(len + 1); sym_fread(f, 0, ob, len); ob[len] = 0; }
void harness_main(void) {
  static const char *TOOL[] = {"accuracy", "wordfreq", "ngram", "vote", "synctext", "wordacc", "editop"}; static const char *PAT[] = {"ab ", "abcde fg\n", "a", "a "};
  int tool = sym_param("tool", 0), i, ac = 0; const char *pat = PAT[sym_param("pat", 0)], *a[8]; long k = strlen(pat), j, m = 0;
  if (tool == 1 || tool == 5) n = WS[symlen("n", sym_param("nlo", 0), sym_param("nhi", 6))] * k; else n = NS[symlen("n", sym_param("nlo", 0), sym_param("nhi", 7))];
  t = malloc(n + 2); for (j = 0; j < n; j++) t[j] = pat[j % k]; while (t[n - 1] == ' ' || t[n - 1] == '\n') t[--n] = 0;
  switch (symlen("pos", 0, sym_param("poss", 2))) { case 0: pos = (n - 1) / k * k; break; case 1: pos = 0; break; default: pos = n / k / 2 * k; }
  sym_file("f", t, n); orig = t[pos]; c = sym_range("c", sym_param("lo", 'a'), sym_param("hi", 'z')); t[pos] = c; sym_file("g", t, n);
  if (tool == 2) { a[ac++] = "-n"; a[ac++] = "1"; }
  if (tool == 3) { a[ac++] = "-o"; a[ac++] = "out"; a[ac++] = "f"; a[ac++] = "f"; a[ac++] = "g"; }
  else if (tool == 1 || tool == 2) a[ac++] = "g"; else { a[ac++] = "f"; a[ac++] = "g"; }
  if (tool == 0 || tool == 5 || tool == 6) a[ac++] = "out";
  i = sym_execv(TOOL[tool], ac, a); m = (n + 1) / k;
  if (tool == 5 && i) { out("STDERR"); sym_assert(m > 65535 && len > 24 && !memcmp(ob + len - 24, "text stream is too long\n", 24), "a text too long is refused with a message"); sym_reach("opt:refused"); return; }
  sym_assert(i == 0, "exit status");
  out(ac > 2 && tool != 2 && tool != 4 ? "out" : "STDOUT");
  if (tool == 0) {
    char *p = ob; p = expect_line(p, "ocreval Accuracy Report Version 7.0\n", "title"); p = line_end(p) + 1;
    sym_assert(nnum(&p) == n, "every character is counted"); p = line_end(p) + 1; sym_assert(nnum(&p) == (c != orig), "every error is counted");
    for (i = 0; i < 26; i++) { char b[5]; long w = 0; sprintf(b, "{%c}", 'a' + i); for (j = 0; j < k; j++) if (pat[j] == 'a' + i) w += n / k + (j < n % k); sym_assert(cnt(b) == w, "every occurrence is counted"); }
  } else if (tool == 2) {
    for (i = 0; i < 26; i++) { char b[5]; long w = 0; sprintf(b, "{%c}", 'a' + i); for (j = 0; j < k; j++) if (pat[j] == 'a' + i) w += n / k + (j < n % k); w += (c == 'a' + i) - (orig == 'a' + i); sym_assert(cnt(b) == w, "every occurrence is counted"); }
    sym_assert(cnt("Total") == n + (t[n - 1] == '\n'), "every character is counted");
  } else if (tool == 3) {
    int same = 1; sym_assert(len == n + 1 || len == n, "the whole text is voted"); t[pos] = orig; for (j = 0; j < n; j++) same &= ob[j] == t[j]; sym_assert(same, "the majority wins");
  }
  else if (tool == 1) {
    char w[9]; long x; for (j = 0; pat[j] != ' '; j++) w[j] = pat[j]; w[j] = 0; x = c != orig;
    sym_assert(cnt("Total") == m, "every word is counted"); sym_assert(cnt(w) == m - x, "every occurrence is counted"); w[0] = sym_conc(c); if (w[0] != orig) sym_assert(cnt(w) == 1, "the other word is counted");
  } else if (tool == 5) {
    char *p = expect_line(ob, "ocreval Word Accuracy Report Version 7.0\n", "title"); p = line_end(p) + 1;
    sym_assert(nnum(&p) == m, "every word is counted"); p = line_end(p) + 1; sym_assert(nnum(&p) == (c != orig), "every misrecognized word is counted"); p = line_end(p) + 1; sym_reach("opt:counted");
    { long a = -1, b = -1; char *q; for (q = ob; *q; q = *line_end(q) ? line_end(q) + 1 : line_end(q)) { char *e = line_end(q); int l = j = 0; for (l = 0; pat[l] != ' '; l++); if (e - q > l + 3 && !memcmp(e - l, pat, l) && e[-l - 1] == ' ') { a = nnum(&q); b = nnum(&q); } } sym_assert(a == m && b == (c != orig), "every occurrence is counted"); }
  } else if (tool == 4) {
    char *p = ob; int same = 1; for (j = 0; j < 79; j++) same &= p[j] == '='; sym_assert(same && p[79] == '\n' && p[80] == '\n', "the line above"); p += 81;
    for (j = 0; j < n; j++) if (j == pos && sym_conc(c != orig)) { sym_assert(starts(p, "{1}"), "the difference is numbered"); p += 3; } else same &= *p++ == (j == pos ? orig : t[j]);
    sym_assert(same && starts(p, "\n="), "the whole text is shown");
    if (sym_conc(c != orig)) { p = line_end(p + 1) + 1; p = expect_line(p, "{1}\n", "footnote"); { char e[8]; sprintf(e, "f {%c}\n", orig); p = expect_line(p, e, "footnote"); } sym_assert(starts(p, "g {") && p[3] == c && starts(p + 4, "}\n="), "footnote"); }
  }
  sym_reach("done");
}
