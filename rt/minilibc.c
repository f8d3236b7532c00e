/* C library routines that symir interprets like any other code. */
#include <stddef.h>
#include <stdint.h>
void *malloc(size_t);
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
char *strcpy(char *d, const char *s) { size_t i = 0; while ((d[i] = s[i]) != 0) i++; return d; }
char *stpcpy(char *d, const char *s) { while ((*d = *s) != 0) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
char *strncat(char *d, const char *s, size_t n) { size_t k = strlen(d), i = 0; for (; i < n && s[i]; i++) d[k + i] = s[i]; d[k + i] = 0; return d; }
int strcmp(const char *a, const char *b) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; while (*x && *x == *y) { x++; y++; } return (int)*x - (int)*y; }
int strncmp(const char *a, const char *b, size_t n) { const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b; size_t i = 0; for (; i < n; i++) { if (x[i] != y[i]) return (int)x[i] - (int)y[i]; if (!x[i]) return 0; } return 0; }
int memcmp(const void *a, const void *b, size_t n) { const unsigned char *x = a, *y = b; size_t i = 0; for (; i < n; i++) if (x[i] != y[i]) return (int)x[i] - (int)y[i]; return 0; }
int bcmp(const void *a, const void *b, size_t n) { return memcmp(a, b, n); }
void *memchr(const void *a, int c, size_t n) { const unsigned char *x = a; size_t i = 0; for (; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i); return 0; }
char *strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return 0; } }
char *strrchr(const char *s, int c) { const char *r = 0; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *strstr(const char *h, const char *n) { size_t k = strlen(n); for (;; h++) { if (!strncmp(h, n, k)) return (char *)h; if (!*h) return 0; } }
char *strdup(const char *s) { size_t n = strlen(s) + 1, i; char *p = malloc(n); for (i = 0; i < n; i++) p[i] = s[i]; return p; }
size_t strspn(const char *s, const char *a) { size_t n = 0; while (s[n] && strchr(a, s[n])) n++; return n; }
size_t strcspn(const char *s, const char *a) { size_t n = 0; while (s[n] && !strchr(a, s[n])) n++; return n; }
int abs(int x) { return x < 0 ? -x : x; }
long labs(long x) { return x < 0 ? -x : x; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isprint(int c) { return c >= 32 && c < 127; }
int isgraph(int c) { return c > 32 && c < 127; }
int iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int isblank(int c) { return c == ' ' || c == '\t'; }
int ispunct(int c) { return isgraph(c) && !isalnum(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
long long llabs(long long x) { return x < 0 ? -x : x; }
int strncasecmp(const char *a, const char *b, size_t n) { size_t i; for (i = 0; i < n; i++) { int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]); if (x != y) return x - y; if (!x) break; } return 0; }
int strcasecmp(const char *a, const char *b) { return strncasecmp(a, b, (size_t)-1); }
char *strpbrk(const char *s, const char *a) { s += strcspn(s, a); return *s ? (char *)s : 0; }
char *strndup(const char *s, size_t m) { size_t n = strnlen(s, m), i; char *p = malloc(n + 1); for (i = 0; i < n; i++) p[i] = s[i]; p[n] = 0; return p; }
void *mempcpy(void *d, const void *s, size_t n) { char *p = d; const char *q = s; size_t i; for (i = 0; i < n; i++) p[i] = q[i]; return p + n; }
void bzero(void *d, size_t n) { char *p = d; size_t i; for (i = 0; i < n; i++) p[i] = 0; }
char *getenv(const char *n) { return 0; }
char *setlocale(int c, const char *l) { return "C"; }
static void swapb(char *a, char *b, size_t n) { size_t i; for (i = 0; i < n; i++) { char t = a[i]; a[i] = b[i]; b[i] = t; } }
/* glibc's qsort is a stable merge sort for small arrays; insertion sort is also stable */
void qsort(void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  char *p = base; size_t i, j;
  for (i = 1; i < n; i++) for (j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) swapb(p + (j - 1) * w, p + j * w, w);
}
void *bsearch(const void *key, const void *base, size_t n, size_t w, int (*cmp)(const void *, const void *)) {
  size_t lo = 0, hi = n; while (lo < hi) { size_t m = (lo + hi) / 2; const char *q = (const char *)base + m * w; int c = cmp(key, q); if (c == 0) return (void *)q; if (c < 0) hi = m; else lo = m + 1; } return 0;
}
#define CONT(c) (((c) & 0xc0) == 0x80)
/* utf8proc 2.9 semantics; selftest.c compares these with the library */
long utf8proc_iterate(const uint8_t *str, long n, int32_t *dst) {
  int32_t uc; long av;
  *dst = -1;
  if (!n) return 0;
  av = n < 0 ? 4 : n;
  uc = str[0];
  if (uc < 0x80) { *dst = uc; return 1; }
  if (uc < 0xc2 || uc > 0xf4) return -3;
  if (uc < 0xe0) { if (av < 2 || !CONT(str[1])) return -3; *dst = ((uc & 0x1f) << 6) | (str[1] & 0x3f); return 2; }
  if (uc < 0xf0) {
    if (av < 3 || !CONT(str[1]) || !CONT(str[2])) return -3;
    if (uc == 0xed && str[1] > 0x9f) return -3;
    uc = ((uc & 0xf) << 12) | ((str[1] & 0x3f) << 6) | (str[2] & 0x3f);
    if (uc < 0x800) return -3;
    *dst = uc; return 3;
  }
  if (av < 4 || !CONT(str[1]) || !CONT(str[2]) || !CONT(str[3])) return -3;
  if (uc == 0xf0) { if (str[1] < 0x90) return -3; }
  else if (uc == 0xf4) { if (str[1] > 0x8f) return -3; }
  *dst = ((uc & 7) << 18) | ((str[1] & 0x3f) << 12) | ((str[2] & 0x3f) << 6) | (str[3] & 0x3f);
  return 4;
}
static long encode_char(int32_t uc, uint8_t *dst) {
  if (uc < 0) return 0;
  if (uc < 0x80) { dst[0] = uc; return 1; }
  if (uc < 0x800) { dst[0] = 0xc0 + (uc >> 6); dst[1] = 0x80 + (uc & 0x3f); return 2; }
  if (uc < 0x10000) { dst[0] = 0xe0 + (uc >> 12); dst[1] = 0x80 + ((uc >> 6) & 0x3f); dst[2] = 0x80 + (uc & 0x3f); return 3; }
  if (uc < 0x110000) { dst[0] = 0xf0 + (uc >> 18); dst[1] = 0x80 + ((uc >> 12) & 0x3f); dst[2] = 0x80 + ((uc >> 6) & 0x3f); dst[3] = 0x80 + (uc & 0x3f); return 4; }
  return 0;
}
void sym_encnote(int32_t uc, uint8_t *dst, long n);
long utf8proc_encode_char(int32_t uc, uint8_t *dst) { long n = encode_char(uc, dst); if (n > 0) sym_encnote(uc, dst, n); return n; }
int utf8proc_codepoint_valid(int32_t uc) { return (uc >= 0 && uc < 0xd800) || (uc > 0xdfff && uc < 0x110000); }
