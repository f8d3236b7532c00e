/* Native replay runtime: same harness, concrete values, real programs.
   usage: replay VALUES SCRATCH TOOLDIR [name=value params...]
   exit 0 passed, 10 assertion failed, 11 assumption failed, 12 crash/timeout of a tool, 13 harness crash */
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include "symrt.h"
#undef exit
struct v { char name[96]; unsigned long val; int used; };
static struct v *vals; static int nvals; static struct { char name[96]; int n; } occ[4096]; static int nocc;
static char tooldir[1024]; static char *params[64]; static int nparams; static int rnd; static const char *scratch;
static int statuses[256], nstat; static FILE *reachlog;
static int nocheck; /* assumptions already hold */
static unsigned long next(const char *name, unsigned long lo, unsigned long hi) {
  int i; char key[128];
  for (i = 0; i < nocc; i++) if (!strcmp(occ[i].name, name)) break;
  if (i == nocc) { strcpy(occ[nocc++].name, name); occ[i].n = 0; }
  snprintf(key, sizeof key, "%s#%d", name, occ[i].n++);
  if (rnd) { unsigned long r = ((unsigned long)random() << 31) ^ random(); return hi - lo == ~0ul ? r : lo + r % (hi - lo + 1); }
  for (i = 0; i < nvals; i++) if (!strcmp(vals[i].name, key)) return vals[i].val;
  return lo;
}
unsigned char sym_u8(const char *n) { return next(n, 0, 255); }
unsigned sym_u32(const char *n) { return next(n, 0, 0xffffffffu); }
unsigned long sym_u64(const char *n) { return next(n, 0, ~0ul); }
unsigned long sym_range(const char *n, unsigned long lo, unsigned long hi) { return lo == hi ? (next(n, lo, hi), lo) : next(n, lo, hi); }
void sym_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(0); _exit(11); } }
void sym_assert(int c, const char *m) { if (!c) { printf("ASSERT %s\n", m); fflush(0); _exit(10); } }
long sym_ite(int c, long a, long b) { return c ? a : b; }
void sym_reach(const char *l) { printf("REACH %s\n", l); }
static void path(char *o, const char *n) { snprintf(o, 2048, "%s/%s", scratch, n); }
void sym_file(const char *n, const void *b, long len) { char p[2048]; FILE *f; path(p, n); f = fopen(p, "wb"); if (!f) { perror(p); _exit(13); } fwrite(b, 1, len, f); fclose(f); }
long sym_fsize(const char *n) { char p[2048]; struct stat s; path(p, n); if (stat(p, &s)) return -1; return s.st_size; }
int sym_fbyte(const char *n, long off) { unsigned char c; if (sym_fread(n, off, &c, 1) != 1) return -1; return c; }
long sym_fread(const char *n, long off, void *b, long max) { char p[2048]; FILE *f; long k; path(p, n); f = fopen(p, "rb"); if (!f) return -1; fseek(f, off, SEEK_SET); k = fread(b, 1, max, f); fclose(f); return k; }
long sym_num(const char *p, long *v) { const char *s = p; char *e; while (*s == ' ') s++; if (*s != '-' && *s != '+' && (*s < '0' || *s > '9')) return 0; if ((*s == '-' || *s == '+') && (s[1] < '0' || s[1] > '9')) return 0; *v = strtol(s, &e, 10); return e - p; }
int sym_fixed(const char *p, int w, int prec, long *v) { int i = 0, n = 0; *v = 0; while (i < w && p[i] == ' ') i++; for (; i < w; i++) { if (i == w - 1 - prec) { if (p[i] != '.') return 0; continue; } if (p[i] < '0' || p[i] > '9') return 0; *v = *v * 10 + p[i] - '0'; n++; } return n > prec; }
int sym_execv(const char *tool, int argc, const char **argv) {
  char exe[2048]; char **av = calloc(argc + 8, sizeof *av); int i, st; pid_t p;
  snprintf(exe, sizeof exe, "%s/%s", tooldir, tool);
  fflush(0);
  p = fork();
  if (!p) {
    int fd; struct rlimit rl; char lim[16] = "";
    if (chdir(scratch)) _exit(127);
    fd = open("STDOUT", O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2(fd, 1); fd = open("STDERR", O_WRONLY | O_CREAT | O_TRUNC, 0666); dup2(fd, 2);
    fd = open("STDIN", O_RDONLY); if (fd < 0) fd = open("/dev/null", O_RDONLY); dup2(fd, 0);
    rl.rlim_cur = rl.rlim_max = 60; setrlimit(RLIMIT_CPU, &rl); rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE, &rl);
    av[0] = (char *)tool; for (i = 0; i < argc; i++) av[i + 1] = (char *)argv[i]; av[argc + 1] = 0;
    if (getenv("REPLAY_VALGRIND")) { char **bv = calloc(argc + 16, sizeof *bv); int k = 0; bv[k++] = "valgrind"; bv[k++] = "-q"; bv[k++] = "--error-exitcode=98"; bv[k++] = "--log-file=VALGRIND"; bv[k++] = exe; for (i = 1; i <= argc; i++) bv[k++] = av[i]; bv[k] = 0; execvp("valgrind", bv); }
    execv(exe, av); perror(exe); _exit(127);
  }
  free(av);
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (WIFSIGNALED(st)) { printf("CRASH %s signal %d\n", tool, WTERMSIG(st)); fflush(0); _exit(12); }
  st = WEXITSTATUS(st);
  if (st == 99) { printf("CRASH %s sanitizer\n", tool); fflush(0); _exit(12); }
  if (st == 98 && getenv("REPLAY_VALGRIND")) { printf("CRASH %s valgrind\n", tool); fflush(0); _exit(12); }
  if (nstat < 256) statuses[nstat++] = st;
  return st;
}
static jmp_buf jb; static int incatch;
void symrt_exit(int st) { if (incatch) longjmp(jb, 1 + (st & 255)); printf("EXIT %d\n", st); fflush(0); _exit(st); }
int sym_catch(void (*f)(void *), void *a) { int r = setjmp(jb); if (r) { incatch = 0; return r; } incatch = 1; f(a); incatch = 0; return 0; }
void sym_digits(char *d, long v, int nd) { while (nd--) { d[nd] = '0' + v % 10; v /= 10; } }
long sym_conc(long v) { return v; }
void sym_note(const char *n, long v) { printf("NOTE %s %ld\n", n, v); }
long sym_param(const char *n, long d) { int i; size_t k = strlen(n); for (i = 0; i < nparams; i++) if (!strncmp(params[i], n, k) && params[i][k] == '=') return atol(params[i] + k + 1); return d; }
static void onsig(int s) { char b[64]; int n = snprintf(b, 64, "CRASH harness signal %d\n", s); if (write(1, b, n)) {} _exit(13); }
int main(int argc, char **argv) {
  FILE *f; char nm[96]; unsigned long x; int i;
  if (argc < 4) return 2;
  if (!strncmp(argv[1], "rand:", 5)) { rnd = 1; srandom(atoi(argv[1] + 5)); }
  else { f = fopen(argv[1], "r"); if (!f) return 2; vals = calloc(100000, sizeof *vals); while (fscanf(f, "%95s %lu", nm, &x) == 2) { strcpy(vals[nvals].name, nm); vals[nvals++].val = x; } fclose(f); }
  scratch = argv[2]; snprintf(tooldir, sizeof tooldir, "%s", argv[3]);
  for (i = 4; i < argc && nparams < 64; i++) params[nparams++] = argv[i];
  mkdir(scratch, 0777); if (chdir(scratch)) return 2;
  if (!getenv("REPLAY_NOSIG")) { signal(SIGSEGV, onsig); signal(SIGABRT, onsig); signal(SIGFPE, onsig); signal(SIGBUS, onsig); }
  harness_main();
  printf("STATUSES"); for (i = 0; i < nstat; i++) printf(" %d", statuses[i]); printf("\nPASS\n"); fflush(0); _exit(0);
}
