/* parses a character accuracy report produced by the tools */
#ifndef ACCPARSE_H
#define ACCPARSE_H
#include "util.h"
struct accrep {
  long chars, errors, reject, suspect, falsem; long ops[3][4];
  int ncls; char cls[16][40]; long ccnt[16], cmiss[16]; long tcnt, tmiss;
  int nconf; char conf[300][110]; long cerr[300], cmark[300];
  int nch; char ch[600][16]; long hcnt[600], hmiss[600];
};
#define DASH "-----------------------------------\n"
static void okpct(char **pp, long num, long den, const char *msg) {
  char b[40]; int i;
  if (den == 0) strcpy(b, "  ------"); else sprintf(b, "%8.2f", 100.0 * (double)num / (double)den);
  for (i = 0; b[i]; i++) { sym_assert((*pp)[i] == b[i], msg); }
  *pp += i;
}
static char *cpy_to_eol(char *d, char *p, int max) { int i = 0; while (*p && *p != '\n' && i < max - 1) d[i++] = *p++; d[i] = 0; return *p ? p + 1 : p; }
/* returns 0 when the file is absent; all structural and percentage expectations are asserted here */
static int parse_acc(const char *file, struct accrep *r) {
  static char buf[MAXF]; long len; char *p; int i, k; static const char *on[3] = {"Marked\n", "Unmarked\n", "Total\n"};
  slurp_buf(file, buf, MAXF, &len);
  if (len < 0) return 0;
  memset(r, 0, sizeof *r);
  p = expect_line(buf, "ocreval Accuracy Report Version 7.0\n" DASH, "accuracy report title");
  r->chars = nnum(&p); p = expect_line(p, "   Characters\n", "Characters row");
  r->errors = nnum(&p); p = expect_line(p, "   Errors\n", "Errors row");
  okpct(&p, r->chars - r->errors, r->chars, "accuracy percentage"); p = expect_line(p, "%  Accuracy\n\n", "Accuracy row");
  r->reject = nnum(&p); p = expect_line(p, "   Reject Characters\n", "Reject row");
  r->suspect = nnum(&p); p = expect_line(p, "   Suspect Markers\n", "Suspect row");
  r->falsem = nnum(&p); p = expect_line(p, "   False Marks\n", "False marks row");
  { char *q = p; okpct(&q, r->reject + r->suspect, r->chars, "percentage marked"); p = expect_line(q, "%  Characters Marked\n", "Marked row"); }
  { char *save = p; p = next_line(p); p = expect_line(p, "\n     Ins    Subst      Del   Errors\n", "operations header");
    for (i = 0; i < 3; i++) { for (k = 0; k < 4; k++) r->ops[i][k] = nnum(&p); p = expect_line(p, "   ", "operations row"); p = expect_line(p, on[i], "operations row name"); }
    okpct(&save, r->chars - r->ops[1][3], r->chars, "percentage after correction"); expect_line(save, "%  Accuracy After Correction\n", "after correction row"); }
  p = expect_line(p, "\n   Count   Missed   %Right\n", "class header");
  for (;;) {
    long c = nnum(&p), m = nnum(&p); char nm[40];
    p = expect_line(p, " ", "class row"); okpct(&p, c - m, c, "class percentage"); p = expect_line(p, "   ", "class row");
    p = cpy_to_eol(nm, p, 40);
    if (!strcmp(nm, "Total")) { r->tcnt = c; r->tmiss = m; break; }
    sym_assert(r->ncls < 16, "too many classes"); strcpy(r->cls[r->ncls], nm); r->ccnt[r->ncls] = c; r->cmiss[r->ncls++] = m;
  }
  if (r->errors > 0) {
    p = expect_line(p, "\n  Errors   Marked   Correct-Generated\n", "confusion header");
    while (*p && *p != '\n') {
      long e = nnum(&p), m = nnum(&p); p = expect_line(p, "   ", "confusion row");
      sym_assert(r->nconf < 300, "too many confusions"); r->cerr[r->nconf] = e; r->cmark[r->nconf] = m; p = cpy_to_eol(r->conf[r->nconf++], p, 110);
    }
  }
  if (r->chars > 0) {
    p = expect_line(p, "\n   Count   Missed   %Right\n", "character header");
    while (*p && *p != '\n') {
      long c = nnum(&p), m = nnum(&p); p = expect_line(p, " ", "character row"); okpct(&p, c - m, c, "character percentage"); p = expect_line(p, "   ", "character row");
      sym_assert(r->nch < 600, "too many characters"); r->hcnt[r->nch] = c; r->hmiss[r->nch] = m; p = cpy_to_eol(r->ch[r->nch++], p, 16);
    }
  }
  sym_assert(*p == 0, "end of report");
  return 1;
}
/* the report's own bookkeeping */
static void acc_consistent(struct accrep *r) {
  int i, k; long a = 0, b = 0;
  for (k = 0; k < 4; k++) sym_assert(r->ops[0][k] + r->ops[1][k] == r->ops[2][k], "marked + unmarked = total operations");
  for (i = 0; i < 3; i++) sym_assert(r->ops[i][0] + r->ops[i][1] + r->ops[i][2] == r->ops[i][3], "ins + subst + del = errors");
  sym_assert(r->ops[2][3] == r->errors, "total operations = errors");
  for (i = 0; i < r->nconf; i++) { a += r->cerr[i]; b += r->cmark[i]; sym_assert(r->cerr[i] >= 1, "confusion with errors"); sym_assert(r->cmark[i] >= 0 && r->cmark[i] <= r->cerr[i], "marked confusions within errors"); }
  sym_assert(a == r->errors, "confusions account for every error"); sym_assert(b == r->ops[0][3], "confusions account for every marked error");
  for (i = 0, a = b = 0; i < r->ncls; i++) { a += r->ccnt[i]; b += r->cmiss[i]; sym_assert(r->ccnt[i] > 0, "empty class shown"); }
  sym_assert(a == r->tcnt && r->tcnt == r->chars, "classes account for every character"); sym_assert(b == r->tmiss, "classes account for every missed character");
  for (i = 0, a = b = 0; i < r->nch; i++) { a += r->hcnt[i]; b += r->hmiss[i]; sym_assert(r->hcnt[i] > 0, "empty character row"); sym_assert(r->hmiss[i] >= 0 && r->hmiss[i] <= r->hcnt[i], "missed within count"); }
  sym_assert(a == r->chars, "character rows account for every character"); sym_assert(b == r->tmiss, "character rows account for every missed character");
  sym_assert(r->tmiss <= r->errors, "every missed character is an error");
  sym_assert(r->falsem >= 0 && r->falsem <= r->suspect, "false marks are suspect markers");
  for (i = 0; i + 1 < r->nconf; i++) {
    sym_assert(r->cerr[i] > r->cerr[i + 1] || (r->cerr[i] == r->cerr[i + 1] && (r->cmark[i] > r->cmark[i + 1] || (r->cmark[i] == r->cmark[i + 1] && strcmp(r->conf[i], r->conf[i + 1]) < 0))), "confusions ordered by errors, marked, text; no duplicates");
  }
}
/* the shown form of an ASCII character */
static void show(char *d, int c) {
  if (c == '\n') strcpy(d, "{<\\n>}"); else if (c < 32 || c == 127) { static const char hx[] = "0123456789ABCDEF"; d[0] = '{'; d[1] = '<'; d[2] = hx[c >> 4]; d[3] = hx[c & 15]; strcpy(d + 4, ">}"); }
  else { d[0] = '{'; d[1] = c; d[2] = '}'; d[3] = 0; }
}
#endif
