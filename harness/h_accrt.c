/* accuracy on small texts of unusual characters; the report summed with an empty one is reproduced; two copies double it */
#include "accgen.h"
static const char *TOK[] = {"a", "\n", "<", "{", "}", "-", "\xC3\xA9", "\xCC\x81", "\xE2\x97\x8C", "\x7F", "\xF4\x8F\xBF\xBF", "\xC2\xAD", ">", "\xE2\x80\x8B"};
static struct accrep R, Q;
static int text(const char *f, const char *nm, long n) { char b[64]; int k = 0; long i; for (i = 0; i < n; i++) k += put_s(b + k, TOK[sym_conc(sym_range(nm, 0, sym_param("ntok", 14) - 1))]); sym_file(f, b, k); return k; }
void harness_main(void) {
  static char a[MAXF], b[MAXF]; long n, m; int i;
  text("c", "c", symlen("n", 0, sym_param("nmax", 1))); text("g", "g", symlen("m", 0, sym_param("mmax", 1)));
  sym_assert(run3("accuracy", "c", "g", "r") == 0, "exit status"); mkempty("e");
  sym_assert(run2("accsum", "r", "e") == 0, "exit status of the sum");
  slurp_buf("r", a, MAXF, &n); slurp_buf("STDOUT", b, MAXF, &m);
  sym_assert(n == m && !memcmp(a, b, n), "a report summed with an empty one is reproduced");
  sym_assert(run2("accsum", "r", "r") == 0, "exit status of the sum"); slurp_buf("STDOUT", b, MAXF, &m); sym_file("d", b, m);
  parse_acc("r", &R); parse_acc("d", &Q);
  sym_assert(Q.chars == 2 * R.chars && Q.errors == 2 * R.errors && Q.nch == R.nch && Q.nconf == R.nconf && Q.ncls == R.ncls && Q.tmiss == 2 * R.tmiss && Q.falsem == 2 * R.falsem, "a report summed with itself doubles");
  for (i = 0; i < R.nch; i++) sym_assert(!strcmp(R.ch[i], Q.ch[i]) && Q.hcnt[i] == 2 * R.hcnt[i] && Q.hmiss[i] == 2 * R.hmiss[i], "character rows double");
  for (i = 0; i < R.nconf; i++) sym_assert(!strcmp(R.conf[i], Q.conf[i]) && Q.cerr[i] == 2 * R.cerr[i] && Q.cmark[i] == 2 * R.cmark[i], "confusions double");
  for (i = 0; i < R.ncls; i++) sym_assert(!strcmp(R.cls[i], Q.cls[i]) && Q.ccnt[i] == 2 * R.ccnt[i] && Q.cmiss[i] == 2 * R.cmiss[i], "classes double");
  sym_reach("done");
}
