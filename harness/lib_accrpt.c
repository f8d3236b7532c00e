/* a character row of any code point is read back into its counters */
#include "util.h"
#include "accrpt.h"
static Accdata A;
static int row(char *b, long v, long cnt, long mis) {
  char s[STRING_SIZE]; int k = 0; put_long(b, &k, cnt, 8); b[k++] = ' '; put_long(b, &k, mis, 8); k += put_s(b + k, "    50.00   {");
  char_to_string(False, (Charvalue)v, s, True); k += put_s(b + k, s); k += put_s(b + k, "}\n"); return k;
}
static void rd(void *p) { read_accrpt(&A, (char *)p); }
void harness_main(void) {
  static char b[2000]; int k = 0; long v, c = sym_range("cnt", 1, 999999), m = sym_range("mis", 0, 999), c2 = sym_range("cnt2", 1, 99);
  v = sym_range("v", 0, 0x10FFFF); sym_assume(!(v >= 0xD800 & v <= 0xDFFF)); sym_assume(v != 'q');
  k += put_s(b + k, "ocreval Accuracy Report Version 7.0\n-----------------------------------\n");
  put_long(b, &k, c + c2, 8); k += put_s(b + k, "   Characters\n       1   Errors\n   50.00%  Accuracy\n\n       0   Reject Characters\n       0   Suspect Markers\n       0   False Marks\n    0.00%  Characters Marked\n   50.00%  Accuracy After Correction\n\n     Ins    Subst      Del   Errors\n       0        0        0        0   Marked\n       1        0        0        1   Unmarked\n       1        0        0        1   Total\n\n   Count   Missed   %Right\n");
  put_long(b, &k, c + c2, 8); b[k++] = ' '; put_long(b, &k, m, 8); k += put_s(b + k, "    50.00   Total\n\n  Errors   Marked   Correct-Generated\n       1        0   {a}-{b}\n\n   Count   Missed   %Right\n");
  if (sym_conc(v < 'q')) { k += row(b + k, v, c, m); k += row(b + k, 'q', c2, 0); } else { k += row(b + k, 'q', c2, 0); k += row(b + k, v, c, m); }
  sym_file("r", b, k);
  sym_assert(sym_catch(rd, "r") == 0, "a report of the tools is accepted");
  sym_assert((A.small_class['q'].count == c2) & (A.small_class['q'].missed == 0), "other character rows are kept");
  sym_assert((A.small_class[v].count == c) & (A.small_class[v].missed == m), "a character row is read back as that character");
  sym_assert((A.total_class.count == c + c2) & (A.total_class.missed == m), "total of the character rows");
  { long i, cc = 0; for (i = 0; i < MAX_CHARCLASSES; i++) cc += A.large_class[i].count; sym_assert(cc == c + c2, "classes account for the rows"); }
  sym_reach("done");
}
