/* splitting a text into words (word.c) against UAX #29 */
#include "util.h"
#include "word.h"
#include "wbref.h"
int utf8proc_category(int);
char *utf8proc_NFC(const char *);
#define N 16
static int cls(unsigned v) { int lo = 0, hi = sizeof wbref / sizeof *wbref - 1; while (lo <= hi) { int m = (lo + hi) / 2; if (v < wbref[m][0]) hi = m - 1; else if (v > wbref[m][1]) lo = m + 1; else return wbref[m][2]; } return W_Other; }
static int letters(int c) { return (c == W_AL) | (c == W_Heb); }
static int midq(int c) { return (c == W_MNL) | (c == W_SQ); }
static int nl(int c) { return (c == W_Newline) | (c == W_CR) | (c == W_LF); }
static int ext(int c) { return (c == W_Extend) | (c == W_Format); }
static int join(int b, int l, int r, int a) { /* b l × r a, all after skipping extenders */
  int x = 0;
  x |= letters(l) & letters(r);                                            /* WB5 */
  x |= letters(l) & ((r == W_ML) | midq(r)) & letters(a);                  /* WB6 */
  x |= letters(b) & ((l == W_ML) | midq(l)) & letters(r);                  /* WB7 */
  x |= (l == W_Heb) & (r == W_SQ);                                         /* WB7a */
  x |= (l == W_Heb) & (r == W_DQ) & (a == W_Heb);                          /* WB7b */
  x |= (b == W_Heb) & (l == W_DQ) & (r == W_Heb);                          /* WB7c */
  x |= (l == W_Num) & (r == W_Num);                                        /* WB8 */
  x |= letters(l) & (r == W_Num);                                          /* WB9 */
  x |= (l == W_Num) & letters(r);                                          /* WB10 */
  x |= (b == W_Num) & ((l == W_MN) | midq(l)) & (r == W_Num);              /* WB11 */
  x |= (l == W_Num) & ((r == W_MN) | midq(r)) & (a == W_Num);              /* WB12 */
  x |= (l == W_Kata) & (r == W_Kata);                                      /* WB13 */
  x |= (letters(l) | (l == W_Num) | (l == W_Kata) | (l == W_ENL)) & (r == W_ENL); /* WB13a */
  x |= (l == W_ENL) & (letters(r) | (r == W_Num) | (r == W_Kata));         /* WB13b */
  x |= (l == W_RI) & (r == W_RI);                                          /* WB13c */
  return x;
}
static int starts_word(unsigned v) { int c = utf8proc_category(v); return ((c >= 1) & (c <= 12)) | (c == 29); }
/* code points one per class and letters that compose */
static const unsigned abc0[] = { 'a', '1', ':', '\'', ',', '_', ' ', 0x301 };
static const unsigned abc1[] = { 'a', 0x5D0, '\'', '"', '.', 0x30A2, 0x1F1E6, 0xAD };
static const unsigned abc2[] = { 'a', 0xD, 0xA, 0x85, 0x301, 0x200E, '-' };
static const unsigned abc3[] = { 'e', 0x301, 0x323, 0x1EB9, 0x344, 0x1100, 0x1161, 0x11A8, 0xE9 };
static unsigned choose(int k) {
  switch (k) {
  case 0: return abc0[sym_range("c", 0, sizeof abc0 / 4 - 1)];
  case 1: return abc1[sym_range("c", 0, sizeof abc1 / 4 - 1)];
  case 2: return abc2[sym_range("c", 0, sizeof abc2 / 4 - 1)];
  default: return sym_conc(abc3[sym_range("c", 0, sizeof abc3 / 4 - 1)]);
  }
}
static int encode(unsigned v, unsigned char *d) {
  if (v < 0x80) { d[0] = v; return 1; }
  if (v < 0x800) { d[0] = 0xC0 | v >> 6; d[1] = 0x80 | (v & 63); return 2; }
  if (v < 0x10000) { d[0] = 0xE0 | v >> 12; d[1] = 0x80 | (v >> 6 & 63); d[2] = 0x80 | (v & 63); return 3; }
  d[0] = 0xF0 | v >> 18; d[1] = 0x80 | (v >> 12 & 63); d[2] = 0x80 | (v >> 6 & 63); d[3] = 0x80 | (v & 63); return 4;
}
static Text text; static Wordlist words;
static void find(void *p) { find_words(&words, &text); }
void harness_main(void) {
  unsigned v[N]; int c[N + 2], brk[N + 1], P[N + 1], Q[N + 1], X[N + 2], n, i, j, k, al = sym_param("alpha", -1), nw = 0; unsigned char seg[4 * N + 1]; Word *w; char *s;
  n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 3));
  for (i = 0; i < n; i++) {
    if (al < 0) { v[i] = sym_range("cp", sym_param("lo", 0), sym_param("hi", 0x10FFFF)); if (sym_param("hi", 0x10FFFF) > 0xD800) sym_assume((v[i] < 0xD800) | (v[i] > 0xDFFF)); } else v[i] = choose(al);
    append_char(&text, 0, v[i]); c[i] = cls(v[i]);
  }
  X[n] = X[n + 1] = -1; for (i = n - 1; i >= 0; i--) X[i] = sym_ite(ext(c[i]), X[i + 1], c[i]);
  for (i = 0; i < n; i++) { P[i] = sym_ite(ext(c[i]), i ? P[i - 1] : -1, c[i]); Q[i] = i ? sym_ite(ext(c[i]), Q[i - 1], P[i - 1]) : -1; }
  brk[0] = brk[n] = 1;
  for (i = 1; i < n; i++) {
    int nb = (c[i - 1] == W_CR) & (c[i] == W_LF), nlb = nl(c[i - 1]) | nl(c[i]);
    brk[i] = !(nb | (!nlb & (ext(c[i]) | (!ext(c[i]) & join(Q[i - 1], P[i - 1], c[i], X[i + 1])))));
  }
  sym_assert(sym_catch(find, 0) == 0, "words can be found in every text");
  sym_assert(text.count == n, "the text stays"); 
  w = words.first;
  for (i = 0; i < n; i = j) {
    j = i + 1; while (!sym_conc(brk[j])) j++;
    if (!sym_conc(starts_word(v[i]))) continue;
    k = 0; for (; i < j; i++) k += encode(v[i], seg + k);
    seg[k] = 0;
    s = al < 0 ? (char *)seg : utf8proc_NFC((char *)seg);
    sym_assert(w != 0, "a word was lost");
    for (k = 0; s[k]; k++) sym_assert(w->string[k] == s[k], "the word is the passage between the boundaries");
    sym_assert(w->string[k] == 0, "the word ends at the boundary");
    w = w->next; nw++;
  }
  sym_assert(w == 0, "no other words"); sym_assert(words.count == nw, "number of words");
  sym_reach("done"); if (nw > 1) sym_reach("opt:twowords");
}
