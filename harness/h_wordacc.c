/* wordacc on texts of words of arbitrary letters (two letters of a fixed sum, so that they share a hash chain) */
#define WTERMS 16
#include "wacparse.h"
#define N 16
static struct wrep r;
struct wtext { int n; char w[N][WLEN]; };
static struct wtext A, B, S;
static const char *deflt = " a about after all also an and any are as at back be because been but by can could did do does down each first for from get good had has have he her him his how i if in into is it its just know like little long made make man many may me more most my new no not now of on one only or other our out over said same see she so some than that the their them then there these they this to too two up us used very was way we were what when where which who why will with woman would you your ";
static void gen(const char *file, struct wtext *t, int n, const char *nm) {
  static char b[4000]; int i, k = 0, alpha = sym_param("alpha", 0), sum = sym_param("sum", 219); 
  t->n = n;
  for (i = 0; i < n; i++) {
    char *w = t->w[i]; int l = 2, j;
    if (alpha == 0) { int x = sym_range(nm, sym_param("lo", 'a'), sym_param("hi", 'z')); w[0] = x; w[1] = sum - x; if (sum != 219) sym_assume((w[1] >= 'a') & (w[1] <= 'z')); }
    else if (alpha == 1) { int x = sym_range(nm, 'A', 'z'); sym_assume((x <= 'Z') | (x >= 'a')); b[k] = x; w[0] = sym_ite(x <= 'Z', x + 32, x); w[1] = sum - w[0]; b[k + 1] = sym_ite(sym_range("up", 0, 1), w[1] - 32, w[1]); }
    else if (alpha == 2) { static const int L[] = {1, 2, 49, 50, 51, 60}; l = L[symlen("len", 0, 5)]; memset(w, 'k', l); }
    else if (alpha == 4) { /* every default stopword and some that are nearly one */
      static const char *V[] = {"b", "th", "thee", "yours", "abou", "women", "x", "was7"}; const char *p = deflt + 1; int d, c = symlen("w", 0, 124 + 8 - 1), nd = 0;
      for (d = 1; deflt[d]; d++) nd += deflt[d] == ' '; sym_assume(c < nd + 8);
      if (c >= nd) strcpy(w, V[c - nd]); else { while (c--) p = strchr(p, ' ') + 1; for (l = 0; p[l] != ' '; l++) w[l] = p[l]; w[l] = 0; }
      l = strlen(w); }
    else { static const char *V[] = {"the", "of", "xy", "because", "qq7"}; strcpy(w, V[symlen("w", 0, 4)]); l = strlen(w); }
    w[l] = 0;
    if (alpha == 1) k += 2; else for (j = 0; j < l; j++) b[k++] = w[j];
    b[k++] = i + 1 < n ? i % 3 == 2 ? '\n' : ' ' : '\n';
  }
  sym_file(file, b, k);
}
static int eq(const char *a, const char *b) { int i, e = 1; if (strlen(a) != strlen(b)) return 0; for (i = 0; a[i]; i++) e &= a[i] == b[i]; return sym_conc(e); }
static int AB[N][N], AA[N][N];
static int lcs(void) { static int d[N + 1][N + 1]; int i, j; for (i = A.n; i >= 0; i--) for (j = B.n; j >= 0; j--) { if (i == A.n || j == B.n) d[i][j] = 0; else { int x = d[i + 1][j] > d[i][j + 1] ? d[i + 1][j] : d[i][j + 1]; if (AB[i][j] && d[i + 1][j + 1] + 1 > x) x = d[i + 1][j + 1] + 1; d[i][j] = x; } } return d[0][0]; }
static int is_stop(const char *w, int file) {
  if (file) { int i; for (i = 0; i < S.n; i++) if (eq(w, S.w[i])) return 1; return 0; }
  { const char *p = deflt; static char s[16]; int k; while (*++p) { for (k = 0; p[k] != ' '; k++) s[k] = p[k]; s[k] = 0; if (eq(w, s)) return 1; p += k; } return 0; }
}
void harness_main(void) {
  int i, j, k, l, best, full = sym_param("full", 0), sf = sym_param("stops", -1), stop[N], first[N], cnt[N], found = 0; unsigned R, len;
  if (sym_param("self", 0)) { gen("a", &A, symlen("n", sym_param("nmin", 0), sym_param("nmax", 3)), "w"); B = A; }
  else { gen("a", &A, symlen("n", sym_param("nmin", 0), sym_param("nmax", 3)), "w"); gen("b", &B, symlen("m", sym_param("mmin", 0), sym_param("mmax", 3)), "v"); }
  if (sf >= 0) { gen("s", &S, symlen("k", 0, sf), "s"); sym_assert(sym_execv("wordacc", 5, (const char *[]){"-S", "s", "a", sym_param("self", 0) ? "a" : "b", "o"}) == 0, "exit status"); }
  else sym_assert(run3("wordacc", "a", sym_param("self", 0) ? "a" : "b", "o") == 0, "exit status");
  sym_assert(parse_wac("o", &r), "report written");
  for (i = 0; i < A.n; i++) { for (j = 0; j < B.n; j++) AB[i][j] = eq(A.w[i], B.w[j]); for (j = 0; j <= i; j++) AA[i][j] = AA[j][i] = eq(A.w[i], A.w[j]); }
  best = lcs();
  sym_assert(r.words == A.n, "every word counts"); sym_assert(r.miss == A.n - best, "recognised words are a longest common subsequence");
  sym_reach("done"); if (best && best < A.n) sym_reach("opt:partial");
  if (!full) return;
  wac_consistent(&r);
  /* rows of the words */
  for (i = 0; i < A.n; i++) { stop[i] = is_stop(A.w[i], sf >= 0); first[i] = 1; for (cnt[i] = j = 0; j < A.n; j++) { cnt[i] += AA[i][j]; if (j < i && AA[i][j]) first[i] = 0; } }
  for (i = k = l = 0; i < A.n; i++) if (first[i]) { if (stop[i]) k++; else l++; }
  sym_assert((r.s.n == k) & (r.t.n == l), "each word is listed once, under its kind");
  { long sc[52] = {0}, nc[52] = {0}, dc[13] = {0};
    for (i = 0; i < A.n; i++) { len = strlen(A.w[i]); if (len > 50) len = 50; if (stop[i]) { sc[len]++; sc[0]++; } else { nc[len]++; nc[0]++; if (first[i]) { dc[0]++; dc[cnt[i] > 10 ? 11 : cnt[i]]++; } } }
    for (i = 0; i < 51; i++) sym_assert((r.sc[i] == sc[i]) & (r.nc[i] == nc[i]), "words by length");
    for (i = 0; i < 12; i++) sym_assert(r.dc[i] == dc[i], "distinct words by occurrences");
    for (i = 1; i <= 8; i++) sym_assert(r.pc[i] == (A.n >= i ? A.n - i + 1 : 0), "phrases"); }
  /* some choice of recognised words explains every row */
  for (R = 0; R < 1u << A.n && !found; R++) {
    int ok, c, pm[9] = {0}; long sm[52] = {0}, nm[52] = {0}, dm[13] = {0};
    for (i = j = c = 0, ok = 1; i < A.n && ok; i++) if (R >> i & 1) { while (j < B.n && !AB[i][j]) j++; if (j == B.n) ok = 0; j++; c++; }
    if (!ok || c != best) continue;
    for (i = 0; i < A.n; i++) { int miss = 1; for (k = 0; k < 8 && i + k < A.n; k++) { if (!(R >> (i + k) & 1)) miss = 0; pm[k + 1] += !miss; }
      len = strlen(A.w[i]); if (len > 50) len = 50; if (!(R >> i & 1)) { if (stop[i]) sm[len]++; else nm[len]++; }
      if (first[i]) { struct wtab *t = stop[i] ? &r.s : &r.t; int q, f = -1; for (c = k = 0; k < A.n; k++) if (AA[i][k] && !(R >> k & 1)) c++;
        for (q = 0; q < t->n; q++) if (eq(t->k[q], A.w[i])) f = q;
        sym_assert(f >= 0, "every word is listed"); sym_assert(t->c[f] == cnt[i], "number of occurrences");
        if (t->m[f] != c) ok = 0;
        if (!stop[i] && c == cnt[i]) { dm[0]++; dm[cnt[i] > 10 ? 11 : cnt[i]]++; } } }
    for (i = 1; i <= 8; i++) if (r.pm[i] != pm[i]) ok = 0;
    for (i = 1; i <= 50; i++) if (r.sm[i] != sm[i] || r.nm[i] != nm[i]) ok = 0;
    for (i = 0; i < 12; i++) if (r.dm[i] != dm[i]) ok = 0;
    found = ok;
  }
  sym_assert(found, "the rows agree with one set of recognised words");
}
