/* native reading of a contract harness: random search and replay on the real code */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <ucontext.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#define VS_NATIVE
#include "vs.h"

#define NENT 256
static struct { const char *n; int (*f)(void); } ents[NENT];
static int nents;
void vs_register(const char *n, int (*f)(void)) { ents[nents].n = n; ents[nents++].f = f; }

static sigjmp_buf jb;
static unsigned long long rs;
static unsigned long rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned long)(rs >> 1); }

/* shared record of the current run */
#define LOGSZ (1<<20)
static struct shared { long runs, ok, rejected; int fail; char label[300]; int loglen; long reach[64]; char rname[64][40]; int nreach; int done; char log[LOGSZ]; } *sh;

static int replaying; int vs_replaying;
typedef struct inp { char *name; int used; int kind; long n; char **v; } inp;
static inp *inps; static int ninp;
static struct { const char *n; long v; } cases[16]; static int ncases;
static void *allocs[4096]; static int nallocs;

static void logf_(const char *fmt, ...) {
  va_list ap; __builtin_va_start(ap, fmt);
  int left = LOGSZ - sh->loglen; if (left < 200) { __builtin_va_end(ap); return; }
  int k = vsnprintf(sh->log + sh->loglen, left, fmt, ap); __builtin_va_end(ap);
  if (k > 0 && k < left) sh->loglen += k;
}
static inp *next_inp(const char *name) {
  for (int i = 0; i < ninp; i++) if (!inps[i].used && !strcmp(inps[i].name, name)) { inps[i].used = 1; return &inps[i]; }
  return 0;
}
static void *xalloc(size_t n) { void *p = malloc(n ? n : 1); if (nallocs < 4096) allocs[nallocs++] = p; return p; }
int vs_in_fiber; extern int vs_fork_each __attribute__((weak));
void vs_assume(int c) { if (!c) { if (vs_in_fiber) { sh->rejected++; sh->runs++; sh->done = 1; _exit(0); } siglongjmp(jb, 1); } }
void vs_abort(void) { siglongjmp(jb, 3); }
void vs_check(int c, const char *lab) { if (!c) { snprintf(sh->label, sizeof sh->label, "%s", lab); sh->fail = 1; if (vs_in_fiber) _exit(41); siglongjmp(jb, 2); } }
void vs_reach(const char *n) {
  int i; for (i = 0; i < sh->nreach; i++) if (!strcmp(sh->rname[i], n)) { sh->reach[i]++; return; }
  if (i < 64) { strncpy(sh->rname[i], n, 39); sh->reach[i] = 1; sh->nreach++; }
}
static long pick(long lo, long hi) {
  if (hi < lo) vs_assume(0);
  unsigned long w = (unsigned long)hi - (unsigned long)lo;
  unsigned long k = rnd() % 100;
#define MOD(x) (w >= (unsigned long)(x) ? (unsigned long)(x) : w + 1)
  if (w == 0) return lo;
  if (k < 20) return lo + (long)(rnd() % MOD(3));
  if (k < 40) return hi - (long)(rnd() % MOD(3));
  if (k < 45 && lo <= 0 && hi >= 0) return 0;
  if (k < 75) return lo + (long)(rnd() % MOD(12));
  if (w + 1 == 0) return (long)rnd();
  return lo + (long)(rnd() % (w + 1));
}
long vs_long(const char *name, long lo, long hi) {
  long v;
  for (int i = 0; i < ncases; i++) if (!strcmp(cases[i].n, name)) { if (cases[i].v < lo || cases[i].v > hi) vs_assume(0); return cases[i].v; }
  if (replaying) { inp *p = next_inp(name); v = p ? atol(p->v[0]) : (lo > 0 ? lo : hi < 0 ? hi : 0); if (v < lo || v > hi) vs_assume(0); }
  else v = pick(lo, hi);
  logf_("%s i 1 %ld\n", name, v);
  return v;
}
long vs_witness(const char *name, long lo, long hi) { return vs_long(name, lo, hi); }
int vs_int(const char *name, long lo, long hi) { return (int)vs_long(name, lo < -2147483648L ? -2147483648L : lo, hi > 2147483647L ? 2147483647L : hi); }
long vs_case(const char *name, long lo, long hi) { return vs_long(name, lo, hi); }
static double dval(void) { switch (rnd() % 4) { case 0: return (double)(long)(rnd() % 7) - 3; case 1: return (double)(long)(rnd() % 2001) / 8 - 125;
   case 2: return (double)(long)(rnd() % 100); default: return ((double)(long)(rnd() % 2000001) - 1000000) / 1024.0; } }
double vs_double(const char *name) {
  double v; if (replaying) { inp *p = next_inp(name); v = p ? atof(p->v[0]) : 1.0; } else v = dval();
  logf_("%s f 1 %.17g\n", name, v); return v;
}
float vs_float(const char *name) { return (float)vs_double(name); }
#define ARR(T, nm, gen, conv, kind, fmt, cast) \
  T *a; long i; if (n < 0) vs_assume(0); if (n > cap || n > 1L << 24) vs_assume(0); a = xalloc(sizeof(T) * (n > 0 ? n : 0)); \
  inp *p = replaying ? next_inp(name) : 0; \
  logf_("%s " kind " %ld", name, n); \
  for (i = 0; i < n; i++) { if (replaying) a[i] = (p && i < p->n) ? (T)conv(p->v[i]) : (T)(dflt); else a[i] = (T)(gen); logf_(" " fmt, (cast)a[i]); } \
  logf_("\n");
long *vs_longs(const char *name, long n, long cap, long lo, long hi) { long dflt = lo > 0 ? lo : hi < 0 ? hi : 0; ARR(long, name, pick(lo, hi), atol, "a", "%ld", long)
  for (i = 0; i < n; i++) if (a[i] < lo || a[i] > hi) vs_assume(0); return a; }
int *vs_ints(const char *name, long n, long cap, long lo, long hi) { long dflt = lo > 0 ? lo : hi < 0 ? hi : 0; ARR(int, name, pick(lo, hi), atol, "a", "%ld", long)
  for (i = 0; i < n; i++) if (a[i] < lo || a[i] > hi) vs_assume(0); return a; }
double *vs_doubles(const char *name, long n, long cap) { double dflt = 1; ARR(double, name, dval(), atof, "b", "%.17g", double) return a; }
float *vs_floats(const char *name, long n, long cap) { double dflt = 1; ARR(float, name, dval(), atof, "b", "%.17g", double) return a; }
void *vs_cpls(const char *name, long n, long cap, void *proto, int dbl) { (void)proto; if (dbl) return vs_doubles(name, 2 * n, 2 * cap); return vs_floats(name, 2 * n, 2 * cap); }
void *vs_bytes(const char *name, long n, long cap) { int dflt = 0; ARR(unsigned char, name, rnd(), atol, "a", "%ld", long) return a; }
long *vs_ascending(const char *name, long n, long cap, long first, long mindiff, long hi) {
  long dflt = first; long room, cur = first;
  if (n > 0 && first + (n - 1) * mindiff > hi) vs_assume(0);
  room = hi - first - (n > 0 ? n - 1 : 0) * mindiff;
  ARR(long, name, (i == 0 ? first : (cur += mindiff + ({ long d = room > 0 ? pick(0, room < 6 ? room : (rnd() % 2 ? 5 : room)) : 0; room -= d; d; }))), atol, "a", "%ld", long)
  for (i = 0; i < n; i++) { if (i == 0 ? a[0] != first : a[i] < a[i-1] + mindiff) vs_assume(0); if (a[i] > hi) vs_assume(0); }
  return a;
}
long *vs_segments(const char *name, long nseg, int *len, long cap, long first, long mindiff, long *hi) {
  long n = 0, s, k, i = 0; for (s = 0; s < nseg; s++) { if (len[s] < 1) vs_assume(0); n += len[s]; }
  if (n > cap || n > 1L << 24) vs_assume(0);
  long *a = xalloc(sizeof(long) * n); inp *p = replaying ? next_inp(name) : 0;
  logf_("%s a %ld", name, n);
  for (s = 0; s < nseg; s++) {
    long room = hi[s] - first - (len[s] - 1) * mindiff, cur = first; if (room < 0) vs_assume(0);
    long spread = len[s] > 1 && rnd() % 2 ? room / (len[s] - 1) : -1;
    for (k = 0; k < len[s]; k++, i++) {
      if (replaying) a[i] = (p && i < p->n) ? atol(p->v[i]) : first + k * mindiff;
      else if (k == 0) a[i] = first;
      else { long d = room > 0 ? (spread >= 0 ? pick(0, spread * 2 < room ? spread * 2 : room) : pick(0, room)) : 0; room -= d; cur += mindiff + d; a[i] = cur; }
      logf_(" %ld", a[i]);
      if (k == 0 ? a[i] != first : a[i] < a[i-1] + mindiff) vs_assume(0);
      if (a[i] > hi[s]) vs_assume(0);
    }
  }
  logf_("\n"); return a;
}
void vs_perm(const char *name, long n, long cap, int **pp, int **qq) {
  int dflt = 0; 
  ARR(int, name, i, atol, "a", "%ld", long)
  int *q = xalloc(sizeof(int) * n);
  if (!replaying) for (i = n - 1; i > 0; i--) { long j = (long)(rnd() % (i + 1)); int t = a[i]; a[i] = a[j]; a[j] = t; }
  for (i = 0; i < n; i++) q[i] = -1;
  for (i = 0; i < n; i++) { if (a[i] < 0 || a[i] >= n || q[a[i]] >= 0) vs_assume(0); q[a[i]] = (int)i; }
  { char nm[80]; snprintf(nm, sizeof nm, "%s", name); /* re-log the final values */
    logf_("%s~final a %ld", nm, n); for (i = 0; i < n; i++) logf_(" %d", a[i]); logf_("\n"); }
  *pp = a; *qq = q;
}
#define ARENA (1L<<26)
static char *arenas[4]; static int narenas;
char *vs_arena(const char *name) { (void)name;
  if (narenas >= 4) vs_assume(0);
  if (!arenas[narenas]) arenas[narenas] = mmap(0, ARENA, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
  return arenas[narenas++]; }
char *vs_arena_of(const char *name, int bits) { (void)bits; return vs_arena(name); }
char **vs_ptrs(const char *name, long n, long cap, char *arena, long spacing) {
  (void)name; long i; char **p; if (n < 0 || n > cap || (n + 2) * spacing > ARENA) vs_assume(0);
  p = xalloc(sizeof(char*) * n); for (i = 0; i < n; i++) p[i] = arena + spacing + i * spacing; return p; }

static void onalarm(int s) { (void)s; snprintf(sh->label, sizeof sh->label, "terminates (no result after 5 s of CPU)"); sh->fail = 3; _exit(43); }
static void onsegv(int s, siginfo_t *si, void *uc) {
  (void)uc; 
#ifdef __x86_64__
  void *pc = (void*)((ucontext_t*)uc)->uc_mcontext.gregs[REG_RIP];
  if ((unsigned long)pc < 4096) { snprintf(sh->label, sizeof sh->label, "harness: call of a function outside the harness"); sh->fail = 9; _exit(44); }
#endif
  snprintf(sh->label, sizeof sh->label, "no memory fault (signal %d at address %p)", s, si->si_addr); sh->fail = 2; _exit(42); }
const char *__asan_default_options(void) { return "detect_leaks=0:handle_segv=0:handle_sigfpe=0:handle_abort=0:allocator_may_return_null=1:abort_on_error=0:exitcode=45:detect_stack_use_after_return=0"; }
const char *__ubsan_default_options(void) { return "halt_on_error=1:exitcode=45:print_stacktrace=0"; }

static int one(int (*f)(void)) {
  int r; nallocs = 0; narenas = 0; sh->loglen = 0; sh->fail = 0;
  for (int i = 0; i < ninp; i++) inps[i].used = 0;
  struct itimerval tv = {{0,0},{5,0}}; setitimer(ITIMER_VIRTUAL, &tv, 0);
  r = sigsetjmp(jb, 0);
  if (r == 0) { f(); sh->ok++; }
  else if (r == 1) sh->rejected++;
  else if (r == 3) sh->ok++;
  sh->runs++;
  for (int i = 0; i < nallocs; i++) free(allocs[i]);
  nallocs = 0;
  return r == 2;
}
static void load_replay(const char *fn) {
  FILE *f = fopen(fn, "r"); char *line = 0; size_t c = 0; if (!f) { perror(fn); exit(3); }
  inps = calloc(20000, sizeof *inps);
  while (getline(&line, &c, f) > 0) {
    char *s = line, *name = strsep(&s, " \n"), *k = s ? strsep(&s, " \n") : 0, *n = s ? strsep(&s, " \n") : 0;
    if (!name || !*name || *name == '#' || !k || !n || ninp >= 20000) continue;
    char *t = strstr(name, "~final");
    inp *p = &inps[ninp];
    if (t) { *t = 0; for (int i = 0; i < ninp; i++) if (!strcmp(inps[i].name, name)) p = &inps[i]; }
    if (p == &inps[ninp]) ninp++;
    p->name = strdup(name); p->kind = *k; p->n = 0; p->v = calloc(atol(n) + 2, sizeof(char*));
    char *v; long m = atol(n); while (p->n < m && (v = strsep(&s, " \n"))) if (*v) p->v[p->n++] = strdup(v);
    if (p->n == 0) p->v[0] = strdup("0");
  }
  fclose(f);
}
static void child_setup(void) {
  static char stk[1<<16]; stack_t ss = { stk, 0, sizeof stk }; sigaltstack(&ss, 0);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = onsegv; sa.sa_flags = SA_SIGINFO|SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGILL, &sa, 0); sigaction(SIGABRT, &sa, 0);
  sa.sa_sigaction = (void*)onalarm; sigaction(SIGVTALRM, &sa, 0);
}
int main(int argc, char **argv) {
  const char *entry = 0, *out = 0, *rep = 0; double tmax = 5; long seed = 1, batch = 500, maxruns = 1L<<40; int all = 0;
  for (int i = 1; i < argc; i++) {
    if (!strcmp(argv[i], "--entry")) entry = argv[++i];
    else if (!strcmp(argv[i], "--time")) tmax = atof(argv[++i]);
    else if (!strcmp(argv[i], "--seed")) seed = atol(argv[++i]);
    else if (!strcmp(argv[i], "--runs")) maxruns = atol(argv[++i]);
    else if (!strcmp(argv[i], "--out")) out = argv[++i];
    else if (!strcmp(argv[i], "--replay")) rep = argv[++i];
    else if (!strcmp(argv[i], "--all")) all = 1;
    else if (!strcmp(argv[i], "--case")) { char *e = strchr(argv[++i], '='); *e = 0; cases[ncases].n = argv[i]; cases[ncases++].v = atol(e + 1); }
  }
  int (*f)(void) = 0;
  for (int i = 0; i < nents; i++) if (entry && !strcmp(ents[i].n, entry)) f = ents[i].f;
  if (!f) { fprintf(stderr, "no entry %s\n", entry ? entry : "?"); return 3; }
  sh = mmap(0, sizeof *sh, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
  if (&vs_fork_each && vs_fork_each) batch = 1;
  if (rep) { replaying = vs_replaying = 1; load_replay(rep); tmax = 0; batch = 1; }
  struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
  unsigned long bn = 0;
  for (;;) {
    fflush(stdout); fflush(stderr);
    sh->done = 0;
    pid_t p = fork();
    if (p == 0) {
      if (!getenv("VS_VERBOSE")) { if (!freopen("/dev/null", "w", stdout)) {} if (!freopen("/dev/null", "w", stderr)) {} }
      child_setup();
      struct timespec c0, c1; clock_gettime(CLOCK_MONOTONIC, &c0);
      for (long k = 0; k < batch; k++) {
        rs = 0x9E3779B97F4A7C15ull * (seed * 1000003ull + bn * 7919ull + k + 1); rnd(); rnd(); rnd();
        if (one(f)) _exit(41);
        if (!rep && (k & 15) == 0) { clock_gettime(CLOCK_MONOTONIC, &c1); if (c1.tv_sec - c0.tv_sec > tmax) break; }
      }
      sh->done = 1;
      _exit(0);
    }
    int st; waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh->done)) {
      if (sh->fail == 0) { sh->fail = 2; if (WIFEXITED(st) && WEXITSTATUS(st) == 45) strcpy(sh->label, "no memory error (address sanitizer)");
        else if (WIFEXITED(st)) snprintf(sh->label, sizeof sh->label, "returns to the caller (process exited with status %d)", WEXITSTATUS(st));
        else snprintf(sh->label, sizeof sh->label, "no crash (signal %d)", WTERMSIG(st)); }
      break;
    }
    bn++;
    clock_gettime(CLOCK_MONOTONIC, &t1);
    double dt = (t1.tv_sec - t0.tv_sec) + (t1.tv_nsec - t0.tv_nsec) / 1e9;
    if (rep || dt > tmax || sh->runs >= maxruns) break;
  }
  printf("RUNS %ld OK %ld REJECTED %ld\n", sh->runs, sh->ok, sh->rejected);
  for (int i = 0; i < sh->nreach; i++) printf("REACH %s %ld\n", sh->rname[i], sh->reach[i]);
  if (sh->fail == 9) { printf("INCOMPLETE %s\n", sh->label); return 2; }
  if (sh->fail) {
    printf("FAIL %s\n", sh->label);
    if (out) { FILE *o = fopen(out, "w"); for (int i = 0; i < ncases; i++) fprintf(o, "%s i 1 %ld\n", cases[i].n, cases[i].v); fwrite(sh->log, 1, sh->loglen, o); fclose(o); }
    return 1;
  }
  (void)all;
  return 0;
}
