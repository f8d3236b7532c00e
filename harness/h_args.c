/* more arguments than a short can count */
#include "util.h"
void harness_main(void) {
  static const char *av[33000]; int i, n = sym_conc(32760 + sym_range("n", 0, 15)), bad = sym_conc(sym_range("last", 0, 1)); char eb[100];
  sym_file("f", "x", 1);
  for (i = 0; i < n; i++) av[i] = "no";
  if (bad) av[n - 1] = "-h";
  i = sym_execv("accdist", n, av); eb[sym_fread("STDERR", 0, eb, 60)] = 0;
  if (bad) { sym_assert(i == 0, "usage is not an error"); sym_assert(starts(eb, "Usage:  accdist "), "usage is shown"); }
  else { sym_assert(i == 1, "exit status tells the error"); sym_assert(starts(eb, "accdist: unable to open file \"no\"\n"), "error message"); }
  sym_reach("done");
}
