/* Harness interface of symir.  A harness defines harness_main(); run by symir
   every sym_* value is symbolic, run natively (symrt_native.c) the values come
   from a file and the real compiled programs are executed. */
#ifndef SYMRT_H
#define SYMRT_H
#include <stddef.h>
#include <stdio.h>
unsigned char sym_u8(const char *name);
unsigned sym_u32(const char *name);
unsigned long sym_u64(const char *name);
unsigned long sym_range(const char *name, unsigned long lo, unsigned long hi);
void sym_assume(int c);
void sym_assert(int c, const char *msg);
long sym_ite(int c, long a, long b);               /* no fork */
void sym_reach(const char *label);
void sym_file(const char *name, const void *buf, long len);
long sym_fsize(const char *name);                  /* -1: absent */
int sym_fbyte(const char *name, long off);         /* -1: past the end */
long sym_fread(const char *name, long off, void *buf, long max); /* -1: absent */
long sym_num(const char *p, long *val);            /* skips blanks; characters used, 0: no number */
int sym_execv(const char *tool, int argc, const char **argv); /* exit status & 255 */
int sym_catch(void (*f)(void *), void *arg);       /* 0: returned; 1+status: exit() called */
long sym_conc(long v);
void sym_digits(char *d, long v, int nd);          /* exactly nd decimal digits, leading zeros */
void sym_note(const char *name, long v);
int sym_fixed(const char *p, int width, int decimals, long *v); /* a right-aligned number: 1 and its value without the point */
long sym_param(const char *name, long dflt);
void harness_main(void);

#include <string.h>
static char *slurp_buf(const char *name, char *buf, long max, long *len) {
  long n = sym_fread(name, 0, buf, max - 1);
  if (n < 0) { *len = -1; buf[0] = 0; return buf; }
  buf[n] = 0; *len = n; return buf;
}
static int run0(const char *t) { return sym_execv(t, 0, 0); }
static int run1(const char *t, const char *a) { const char *v[1]; v[0] = a; return sym_execv(t, 1, v); }
static int run2(const char *t, const char *a, const char *b) { const char *v[2]; v[0] = a; v[1] = b; return sym_execv(t, 2, v); }
static int run3(const char *t, const char *a, const char *b, const char *c) { const char *v[3]; v[0] = a; v[1] = b; v[2] = c; return sym_execv(t, 3, v); }
static int run4(const char *t, const char *a, const char *b, const char *c, const char *d) { const char *v[4]; v[0] = a; v[1] = b; v[2] = c; v[3] = d; return sym_execv(t, 4, v); }
static int run5(const char *t, const char *a, const char *b, const char *c, const char *d, const char *e) { const char *v[5]; v[0] = a; v[1] = b; v[2] = c; v[3] = d; v[4] = e; return sym_execv(t, 5, v); }
#endif
