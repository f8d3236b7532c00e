/* reading, spacing, character representation, writing and headers (text.c) */
#include "util.h"
#include "text.h"
#include "charclass.h"
int utf8proc_category(int);
int utf8proc_tolower(int);
#define N 12
/* RFC 3629, table 3-7: 1 well-formed with the code points in out, 0 otherwise */
static int decode(const unsigned char *b, int n, unsigned *out, int *cnt) {
  int i = 0, k = 0;
  while (i < n) {
    unsigned a = b[i]; int len, j; unsigned lo = 0x80, hi = 0xBF, v;
    if (a <= 0x7F) { out[k++] = a; i++; continue; }
    if (a >= 0xC2 && a <= 0xDF) { len = 2; v = a & 31; }
    else if (a >= 0xE0 && a <= 0xEF) { len = 3; v = a & 15; if (a == 0xE0) lo = 0xA0; if (a == 0xED) hi = 0x9F; }
    else if (a >= 0xF0 && a <= 0xF4) { len = 4; v = a & 7; if (a == 0xF0) lo = 0x90; if (a == 0xF4) hi = 0x8F; }
    else return 0;
    for (j = 1; j < len; j++) {
      if (i + j >= n) return 0;
      if ((b[i + j] < lo) | (b[i + j] > hi)) return 0;
      v = v << 6 | (b[i + j] & 63); lo = 0x80; hi = 0xBF;
    }
    out[k++] = v; i += len;
  }
  *cnt = k; return 1;
}
static int encode(unsigned v, unsigned char *d) {
  if (v < 0x80) { d[0] = v; return 1; }
  if (v < 0x800) { d[0] = 0xC0 | v >> 6; d[1] = 0x80 | (v & 63); return 2; }
  if (v < 0x10000) { d[0] = 0xE0 | v >> 12; d[1] = 0x80 | (v >> 6 & 63); d[2] = 0x80 | (v & 63); return 3; }
  d[0] = 0xF0 | v >> 18; d[1] = 0x80 | (v >> 12 & 63); d[2] = 0x80 | (v >> 6 & 63); d[3] = 0x80 | (v & 63); return 4;
}
static Textopt opt; static Text text;
static void doread(void *p) { read_text(&text, (char *)p, &opt); }
static void links(Text *t) { Char *c; long n = 0; for (c = t->first; c; c = c->next) { n++; if (c->next) sym_assert(c->next->prev == c, "links"); else sym_assert(t->last == c, "last"); } sym_assert(n == t->count, "count"); }

static void m_decode(void) {
  unsigned char b[N]; unsigned out[N]; int n, k = 0, i, r, ok, np = sym_param("pre", 0); Char *c;
  n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 4));
  for (i = 0; i < np; i++) b[i] = 'a' + i;
  for (; i < n + np; i++) b[i] = sym_u8("b");
  n += np;
  sym_file("t", b, n);
  ok = decode(b, n, out, &k);
  r = sym_catch(doread, "t");
  sym_assert((r == 0) == ok, "accepted exactly when well-formed");
  if (!ok) { sym_reach("opt:malformed"); sym_assert(r != 1, "malformed input ends with a failure status"); return; }
  sym_reach("wellformed");
  links(&text);
  sym_assert(text.count == k, "number of code points");
  for (c = text.first, i = 0; c; c = c->next, i++) sym_assert((c->value == out[i]) & !c->suspect, "code points");
}
static int ublank(unsigned c) {
  return (c == 9) | ((c >= 11) & (c <= 13)) | (c == 32) | (c == 0xA0) | (c == 0x1680) | ((c >= 0x2000) & (c <= 0x200A)) | (c == 0x2028) | (c == 0x2029) | (c == 0x202F) | (c == 0x205F) | (c == 0x3000);
}
static const char *alpha(long k) { switch (k) { case 0: return "a \n^"; case 1: return "a \n\t"; case 2: return " \n^"; default: return "aB \n\t^\r"; } }
static void m_space(void) {
  unsigned char b[4 * N]; unsigned v[N], ov[N]; int os[N], n, i, len = 0, k, o = 0, have = 0, pend = 0, ps = 0, s = 0, mk = sym_param("markers", 1), norm = sym_param("normalize", 1), low = sym_param("lower", 0), raw = sym_param("alpha", -1) < 0; Char *c;
  n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 3));
  for (i = 0; i < n; i++) {
    if (raw) { v[i] = sym_range("cp", 0, 0x10FFFF); sym_assume((v[i] < 0xD800) | (v[i] > 0xDFFF)); len += encode(v[i], b + len); }
    else { v[i] = b[len++] = pick("c", alpha(sym_param("alpha", 0))); }
  }
  sym_file("t", b, len);
  opt.find_markers = mk; opt.normalize = norm; opt.case_insensitive = low;
  for (i = 0; i < n; i++) {
    unsigned x = v[i];
    if (mk && x == '^') { s = 1; continue; }
    if (norm) {
      if (ublank(x)) { if (have) { pend = 1; ps |= s; } s = 0; continue; }
      if (x == '\n') { pend = ps = 0; if (have) { ov[o] = x; os[o++] = s; have = 0; } s = 0; continue; }
      if (pend) { ov[o] = ' '; os[o++] = ps; pend = ps = 0; }
      have = 1;
    }
    ov[o] = low ? (unsigned)utf8proc_tolower(x) : x; os[o++] = s; s = 0;
  }
  sym_assert(sym_catch(doread, "t") == 0, "readable");
  links(&text);
  sym_assert(text.count == o, "characters left after normalisation");
  for (c = text.first, i = 0; c; c = c->next, i++) { sym_assert(c->value == ov[i], "normalised characters"); sym_assert(!c->suspect == !os[i], "suspect markers kept"); }
  sym_reach("done"); if (o < n) sym_reach("opt:shorter");
}
/* categories that stand for themselves: letters, marks, numbers, punctuation, symbols, private use, the space */
static int shown(unsigned v) { int c = utf8proc_category(v); return (v == ' ') | ((c >= 1) & (c <= 22)) | (c == 29); }
static int mark(unsigned v) { int c = utf8proc_category(v); return (c >= 6) & (c <= 8); }
static int hexd(unsigned v) { return sym_ite(v < 10, '0' + v, 'A' + v - 10); }
static int repr(int suspect, unsigned v, int fake, unsigned char *d) {
  int k = 0, i, w;
  if (suspect) d[k++] = '^';
  if (v == '\n') { if (fake) { memcpy(d + k, "<\\n>", 4); k += 4; } else d[k++] = '\n'; }
  else if (shown(v)) { if (mark(v)) k += encode(0x25CC, d + k); k += encode(v, d + k); }
  else {
    w = v < 256 ? 2 : v < 0x10000 ? 4 : v < 0x100000 ? 5 : 6;
    d[k++] = '<'; for (i = w - 1; i >= 0; i--) d[k++] = hexd(v >> 4 * i & 15); d[k++] = '>';
  }
  d[k] = 0; return k;
}
static void m_repr(void) {
  unsigned v = sym_range("cp", sym_param("lo", 0), sym_param("hi", 0x10FFFF)); int su = sym_conc(sym_range("suspect", 0, 1)), fk = sym_conc(sym_range("fake", 0, 1)), k, i;
  char *s = malloc(STRING_SIZE); unsigned char d[40];
  sym_assume((v < 0xD800) | (v > 0xDFFF));
  char_to_string(su, v, s, fk);
  k = repr(su, v, fk, d);
  sym_reach("done");
  for (i = 0; i <= k; i++) sym_assert((unsigned char)s[i] == d[i], "representation of a character");
}
static void m_inject(void) {
  unsigned v = sym_range("cp", 0, 0x10FFFF), w = sym_range("cq", 0, 0x10FFFF); char *s = malloc(STRING_SIZE + 8), *t = malloc(STRING_SIZE + 8);
  int fk = sym_conc(sym_range("fake", 0, 1));
  sym_assume((v < 0xD800) | (v > 0xDFFF)); sym_assume((w < 0xD800) | (w > 0xDFFF)); sym_assume(v < w);
  char_to_string(0, v, s, fk); char_to_string(0, w, t, fk);
  sym_reach("done");
  sym_assert(strcmp(s, t) != 0, "different characters have different representations");
}
static void hdr(FILE *f) { fputs("made by a test\n\n", f); }
static void dowrite(void *p) { write_text(&text, (char *)p, sym_param("header", 0) ? hdr : NULL); }
static void m_round(void) {
  unsigned v[N]; int s[N], n, i; Char *c; static Text w;
  n = symlen("n", 0, sym_param("nmax", 2));
  for (i = 0; i < n; i++) {
    v[i] = sym_range("cp", 0, 0x10FFFF); s[i] = sym_range("suspect", 0, 1);
    sym_assume((v[i] < 0xD800) | (v[i] > 0xDFFF)); sym_assume((v[i] != '^') & ((v[i] == '\n') | (shown(v[i]) & !mark(v[i]))));
    append_char(&text, s[i], v[i]);
  }
  sym_assert(sym_catch(dowrite, "o") == 0, "written");
  w = text; memset(&text, 0, sizeof text);
  opt.find_markers = 1; opt.find_header = sym_param("header", 0) != 0;
  sym_assert(sym_catch(doread, "o") == 0, "read back");
  if (opt.find_header) sym_assert(opt.found_header == 1, "header recognised");
  sym_assert(text.count == n, "same length"); links(&text);
  for (c = text.first, i = 0; c; c = c->next, i++) { sym_assert(c->value == v[i], "same characters"); sym_assert(!c->suspect == !s[i], "same suspect markers"); }
  sym_reach("done");
}
#define HT "ocreval Vendor-Independent Interface Version 7.0\n"
#define HD "------------------------------------------------\n"
static void m_header(void) {
  static unsigned char f[400]; int k = 0, i, n, pos, hdrok, start = 0, nd = 0, kind = sym_param("kind", 0); Char *c; unsigned char x;
  memcpy(f, HT, sizeof HT - 1); k = sizeof HT - 1; memcpy(f + k, HD, sizeof HD - 1); k += sizeof HD - 1;
  memcpy(f + k, "x - y\n\n", 7); k += 7; memcpy(f + k, HD, sizeof HD - 1); k += sizeof HD - 1;
  /* one byte anywhere becomes any ASCII byte, and the file may end anywhere */
  pos = symlen("pos", 0, k - 1); x = sym_range("byte", 0, 127);
  if (kind == 0) f[pos] = x; else k = pos;
  f[k++] = 'a'; f[k++] = sym_range("t", 0, 127); f[k++] = '\n';
  sym_file("t", f, k);
  opt.find_header = 1;
  hdrok = 1; for (i = 0; i < (int)sizeof HT - 5; i++) if (i >= k || f[i] != (unsigned char)HT[i]) { hdrok = 0; break; }
  if (hdrok) { /* skip the title line, then through the second divider line */
    int p = 0, q;
    while (p < k && nd < 2) {
      for (q = p; q < k && f[q] != '\n' && q - p < 97; q++) ;
      if (q < k) q++;
      if (p > 0 && q - p == (int)sizeof HD - 1 && !memcmp(f + p, HD, sizeof HD - 1)) nd++;
      p = q;
    }
    start = p; sym_reach("header");
  } else sym_reach("noheader");
  sym_assert(sym_catch(doread, "t") == 0, "readable");
  sym_assert(!opt.found_header == !hdrok, "header recognised exactly when present");
  sym_assert(text.count == k - start, "everything after the header");
  for (c = text.first, i = start; c; c = c->next, i++) sym_assert(c->value == f[i], "text after the header");
}
#include "classref.h"
static Charvalue ccv; static int ccr; static char *ccn;
static void docc(void *p) { ccr = charclass(ccv); ccn = charclass_name(ccr); }
static void m_class(void) {
  int i; char *want = "Unassigned", *n1;
  if (sym_param("before", 0)) { ccv = 'q'; docc(0); }
  ccv = sym_range("cp", 0, 0x10FFFF);
  for (i = 0; i < NREF; i++) if ((ccv >= classref[i].lo) & (ccv <= classref[i].hi)) { want = classref[i].name; break; }
  sym_assert(sym_catch(docc, 0) == 0, "classified");
  sym_assert(ccr < MAX_CHARCLASSES, "class number");
  sym_assert(!strcmp(ccn, want), "class of the character");
  n1 = ccn; docc(0); sym_assert(n1 == ccn, "classification is stable");
  sym_reach("done");
}
void harness_main(void) {
  switch (sym_param("mode", 0)) {
  case 0: m_decode(); break; case 1: m_space(); break; case 2: m_repr(); break; case 3: m_inject(); break; case 4: m_round(); break; case 5: m_header(); break; default: m_class();
  }
}
