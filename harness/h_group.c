/* groupacc: the characters of the group file with the counts of the report */
#include "accgen.h"
#define NT 18
/* raw text of every member of POOL, then characters no report has */
static const char *TOK[NT] = {"\n", " ", "-", "7", "<", "A", "a", "{", "}", "\x7F", "\xC3\xA9", "\xCC\x81", "\xE2\x82\xAC", "\xF4\x8F\xBF\xBF", "z", "^", "~", "\t"};
static const long RS[5] = {0x3FFF, 0x40, 0x2A7, 0x3D5B, 0};
static struct arep R;
void harness_main(void) {
  static char b[MAXF]; char g[64], *p; long n, len; int i, k = 0, tok[8], out = sym_param("out", 1), ng = 0; long tc = 0, tm = 0;
  long lo = sym_param("tlo", 0), hi = sym_param("thi", NT - 1);
  mkacc("r", &R, sym_param("nd", 5), RS[symlen("rows", sym_param("rlo", 0), sym_param("rhi", 2))], 1);
  n = symlen("n", sym_param("nmin", 0), sym_param("nmax", 3));
  for (i = 0; i < n; i++) { tok[i] = sym_conc(sym_range("t", lo, hi)); k += put_s(g + k, TOK[tok[i]]); }
  sym_file("g", g, k);
  if (out) sym_assert(run3("groupacc", "g", "r", "o") == 0, "exit status"); else sym_assert(run2("groupacc", "g", "r") == 0, "exit status");
  slurp_buf(out ? "o" : "STDOUT", b, MAXF, &len);
  sym_assert(len > 0, "report written");
  p = expect_line(b, "   Count   Missed   %Right\n", "header");
  for (i = 0; i < n; i++) { int t = tok[i];
    if (t < 2 || t >= NPOOL || !sym_conc(R.cnt[t] != 0)) continue;
    { long c = nnum(&p), m = nnum(&p); sym_assert((c == R.cnt[t]) & (m == R.mis[t]), "occurrences and misses of the report"); }
    p = expect_line(p, " ", "row"); okpct(&p, R.cnt[t] - R.mis[t], R.cnt[t], "percentage"); p = expect_line(p, "   ", "row");
    p = expect_line(p, POOL[t].row, "characters in the order of the group file"); p = expect_line(p, "\n", "row");
    tc += R.cnt[t]; tm += R.mis[t]; ng++;
  }
  { long c = nnum(&p), m = nnum(&p); sym_assert((c == tc) & (m == tm), "total of the rows shown"); }
  p = expect_line(p, " ", "total row"); okpct(&p, tc - tm, tc, "percentage of the total"); p = expect_line(p, "   Total\n", "total row");
  sym_assert(*p == 0, "end of report");
  sym_reach("done");
}
