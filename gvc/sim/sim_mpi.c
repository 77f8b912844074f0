/* MPI and fiber scheduler for the in-process simulator */
#define _GNU_SOURCE
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
#include <unistd.h>
#include <ucontext.h>
#include <sys/mman.h>
#include "sim.h"
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#include <sanitizer/asan_interface.h>
#define ASAN 1
#endif
#define MAXP 12
#define MAXL 8
int sim_me, sim_np; extern int sim_node_size;
int vs_fork_each = 1;
extern int vs_in_fiber;
extern void vs_check(int, const char *);
static void die(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void die(const char *fmt, ...) { static char b[300]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); vs_check(0, b); _exit(41); }

/* ------------------------------------------------------------ library copies */
static void *lib[MAXP];
static void load(int r) {
  char p[600], q[700]; ssize_t n;
  if (lib[r]) return;
  n = readlink("/proc/self/exe", p, 500); p[n] = 0; *strrchr(p, '/') = 0;
  snprintf(q, sizeof q, "%s/libsim_%d.so", p, r);
  lib[r] = dlopen(q, RTLD_NOW | RTLD_LOCAL);
  if (!lib[r]) { fprintf(stderr, "sim: %s\n", dlerror()); _exit(3); }
}
__attribute__((constructor)) static void preload(void) { char *e = getenv("VS_SIM_PRELOAD"); int i, n = e ? atoi(e) : 5; for (i = 0; i < n; i++) load(i); }
void *sim_sym(const char *name) { void *p = dlsym(lib[sim_me], name); if (!p) { fprintf(stderr, "sim: no symbol %s\n", name); _exit(3); } return p; }

/* ------------------------------------------------------------ fibers */
static struct { ucontext_t c; char *stk; int done; void *fake; } fb[MAXP];
static ucontext_t mainc; static void *mainfake; static const void *mainbot; static size_t mainsz;
#define STK (16L << 20)
static unsigned long long rs; static long idle; static int ntot;
static void (*body)(int);
static unsigned rnd(void) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return (unsigned)(rs >> 20); }
/* global memory belongs to one process: while another rank runs, the address sanitizer refuses access to it */
static struct { char *p; long n; } own[MAXP][4096]; static int nown[MAXP];
static void guard(int r, int on) {
#ifdef ASAN
  int i; if (r >= 0) for (i = 0; i < nown[r]; i++) if (on) __asan_poison_memory_region(own[r][i].p, own[r][i].n); else __asan_unpoison_memory_region(own[r][i].p, own[r][i].n);
#endif
}
void sim_own(void *p, long n) { if (p && n > 0 && sim_me >= 0 && nown[sim_me] < 4096) { own[sim_me][nown[sim_me]].p = p; own[sim_me][nown[sim_me]++].n = n; } }
void sim_disown(void *p) { int i; if (sim_me >= 0) for (i = 0; i < nown[sim_me]; i++) if (own[sim_me][i].p == p) { own[sim_me][i] = own[sim_me][--nown[sim_me]]; return; } }
static void sw(int to) {
  int me = sim_me; if (to == me) return;
  guard(me, 1); guard(to, 0);
  if (to < 0) { int i; for (i = 0; i < MAXP; i++) guard(i, 0); }
  sim_me = to;
#ifdef ASAN
  if (to < 0) __sanitizer_start_switch_fiber(fb[me].done ? 0 : &fb[me].fake, mainbot, mainsz);
  else __sanitizer_start_switch_fiber(me < 0 ? &mainfake : fb[me].done ? 0 : &fb[me].fake, fb[to].stk, STK);
#endif
  swapcontext(me < 0 ? &mainc : &fb[me].c, to < 0 ? &mainc : &fb[to].c);
#ifdef ASAN
  __sanitizer_finish_switch_fiber(me < 0 ? mainfake : fb[me].fake, 0, 0);
#endif
}
static int pick_next(void) {
  int i, k = rnd() % ntot;
  for (i = 0; i < ntot; i++) { int r = (k + i) % ntot; if (!fb[r].done) return r; }
  return -1;
}
static int sim_node(int r) { return r >= sim_np ? r - sim_np : sim_node_size > 0 ? r / sim_node_size : 0; }
#ifdef SIM_PR
static void serve(void);
#endif
static void fiber(void) {
#ifdef ASAN
  const void *b; size_t s; __sanitizer_finish_switch_fiber(0, &b, &s); if (!mainbot) { mainbot = b; mainsz = s; }
#endif
#ifdef SIM_PR
  if (sim_me >= sim_np) serve(); else
#endif
  body(sim_me);
  fb[sim_me].done = 1; idle = 0;
  sw(pick_next());
}
static void yield_(void) { if (sim_me >= 0) sw(pick_next()); }
/* called when the rank cannot proceed */
static void blocked(void) { if (++idle > 300000L) die("no deadlock or livelock (every rank waits)"); yield_(); }
static void progress(void) { idle = 0; }
void sim_yield(void) { if (rnd() % 4 == 0) yield_(); }
#ifdef SIM_PR
/* the progress rank port: one more rank per node serves requests; shared memory segments and semaphores of the nodes */
#include <sys/vfs.h>
#include <fcntl.h>
#include <errno.h>
#include <stdarg.h>
static struct { char name[64]; int fd, node, used, nsem; long size; } shm[2048];
static struct { int fd, k; } fds[64]; static int nfds;
static struct { char *p; long n; int rank, k; } maps[MAXP][2048]; static int nmaps[MAXP];
static int node_of_me(void) { return sim_node(sim_me); }
static int shm_find(const char *n) { int i; for (i = 0; i < 2048; i++) if (shm[i].used && shm[i].node == node_of_me() && !strcmp(shm[i].name, n)) return i; return -1; }
static int shm_new(const char *n) { if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d new %s\n", sim_me, n); int i; for (i = 0; i < 2048; i++) if (!shm[i].used) { memset(&shm[i], 0, sizeof shm[i]); shm[i].used = 1; shm[i].node = node_of_me(); snprintf(shm[i].name, sizeof shm[i].name, "%s", n); return i; } die("harness: enough room for shared memory segments"); return -1; }
int sim_shm_open(const char *n, int fl, mode_t m) {
  int k = shm_find(n); (void)m;
  if (fl & O_CREAT) { if (k >= 0) { if (fl & O_EXCL) { errno = EEXIST; return -1; } } else { k = shm_new(n); shm[k].fd = memfd_create("shm", 0); } }
  else if (k < 0) { errno = ENOENT; return -1; }
  fds[nfds].fd = dup(shm[k].fd); fds[nfds].k = k; if (nfds > 60) die("shared memory descriptors are closed"); return fds[nfds++].fd;
}
static int fdk(int fd) { int i; for (i = 0; i < nfds; i++) if (fds[i].fd == fd) return i; return -1; }
int sim_ftruncate(int fd, off_t n) { int i = fdk(fd); if (i < 0) die("a segment is sized through its own descriptor"); shm[fds[i].k].size = n; return ftruncate(fd, n); }
int sim_close(int fd) { int i = fdk(fd); if (i >= 0) fds[i] = fds[--nfds]; return close(fd); }
static long pages(long n) { return (n + 4095) & ~4095L; }
void *sim_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
  int i = fdk(fd); void *p; (void)a;
  if (i < 0) die("a mapping names an open segment");
  if ((long)n > shm[fds[i].k].size) die("a mapping is not larger than its segment");
  p = mmap(0, n, pr, fl, fd, o); if (p == MAP_FAILED) return p;
#ifdef ASAN
  if (pages(n) > (long)n) __asan_poison_memory_region((char*)p + n, pages(n) - n);
#endif
  if (nmaps[sim_me] < 2048) { int r = sim_me, j = nmaps[r]++; maps[r][j].p = p; maps[r][j].n = n; }
  sim_own(p, n); return p;
}
int sim_munmap(void *p, size_t n) {
  int j, r = sim_me; for (j = 0; j < nmaps[r] && maps[r][j].p != p; j++) ;
  if (j == nmaps[r]) die("a segment is unmapped where it was mapped"); if (maps[r][j].n != (long)n) die("a segment is unmapped with its own size");
  maps[r][j] = maps[r][--nmaps[r]]; sim_disown(p);
#ifdef ASAN
  __asan_unpoison_memory_region(p, pages(n));
#endif
  return munmap(p, n);
}
int sim_shm_unlink(const char *n) { if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d unlink %s\n", sim_me, n); int k = shm_find(n); if (k < 0) { errno = ENOENT; return -1; } close(shm[k].fd); shm[k].used = 0; return 0; }
void *sim_sem_open(const char *n, int fl, ...) { int k = shm_find(n); if (k < 0 && !(fl & O_CREAT) && getenv("VS_VERBOSE")) fprintf(stderr, "rank %d node %d cannot find %s\n", sim_me, node_of_me(), n); if (fl & O_CREAT) { va_list a; unsigned v; if (k >= 0) { errno = EEXIST; return 0; } va_start(a, fl); va_arg(a, int); v = va_arg(a, unsigned); va_end(a); k = shm_new(n); shm[k].fd = -1; shm[k].nsem = (int)v; } else if (k < 0) { errno = ENOENT; return 0; } return &shm[k].nsem; }
int sim_sem_close(void *s) { (void)s; return 0; }
int sim_sem_unlink(const char *n) { int k = shm_find(n); if (k < 0) { errno = ENOENT; return -1; } shm[k].used = 2; return 0; }
int sim_sem_wait(void *s) { int *v = s; while (*v <= 0) blocked(); --*v; progress(); sim_yield(); return 0; }
int sim_sem_post(void *s) { ++*(int*)s; progress(); sim_yield(); return 0; }
int sim_gethostname(char *s, size_t n) { if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d host %d\n", sim_me, node_of_me()); snprintf(s, n, "node%02d", node_of_me()); return 0; }
int sim_fstatfs(int fd, struct statfs *b) { (void)fd; memset(b, 0, sizeof *b); b->f_bsize = 4096; b->f_bavail = b->f_bfree = b->f_blocks = 1L << 30; return 0; }
int sim_getpid(void) { return 1000 + sim_me; }
int sim_sched_setaffinity() { return 0; }
int sim_pthread_setaffinity_np() { return 0; }
void sim_exit(int c) { if (c) die("no exit with code %d", c); if (sim_me < sim_np) die("a worker does not exit"); fb[sim_me].done = 1; idle = 0; sw(pick_next()); _exit(3); }
static void flag(const char *n, unsigned v) { char b[24]; sprintf(b, "%u", v); setenv(n, b, 1); }
static void pr_begin(long seed) {
  unsigned long long h = (unsigned long long)seed * 0xD1342543DE82EF95ull + 99; unsigned w; int nodes;
  nodes = sim_node_size > 0 ? (sim_np + sim_node_size - 1) / sim_node_size : 1; ntot = sim_np + nodes;
#define BIT() (h = h * 6364136223846793005ull + 1442695040888963407ull, (unsigned)(h >> 40))
  { static const char *on[] = { "PUT_SELF", "GET_SELF", "ACC_SELF", "PUT_SMP", "GET_SMP", "ACC_SMP", "PUT_PACKED", "GET_PACKED", "ACC_PACKED", "PUT_DATATYPE", "GET_DATATYPE", "PUT_IOV", "GET_IOV", "ACC_IOV", 0 }; int i, mode = BIT() % 4;
    for (i = 0; on[i]; i++) { char b[64]; unsigned v = mode == 0 ? 1 : i < 6 && mode == 1 ? 0 : BIT() % 2; sprintf(b, "COMEX_ENABLE_%s", on[i]); flag(b, v); } }
  w = BIT() % 3; if (w) { flag("COMEX_PUT_DATATYPE_THRESHOLD", w == 1 ? 0 : BIT() % 300); flag("COMEX_GET_DATATYPE_THRESHOLD", w == 1 ? 0 : BIT() % 300); } else { unsetenv("COMEX_PUT_DATATYPE_THRESHOLD"); unsetenv("COMEX_GET_DATATYPE_THRESHOLD"); }
  w = BIT() % 3; if (w == 1) flag("COMEX_EAGER_THRESHOLD", BIT() % 200); else if (w == 2) flag("COMEX_EAGER_THRESHOLD", 0); else unsetenv("COMEX_EAGER_THRESHOLD");
  w = BIT() % 3; if (w == 1) flag("COMEX_MAX_MESSAGE_SIZE", 400 + BIT() % 400); else unsetenv("COMEX_MAX_MESSAGE_SIZE");
  w = BIT() % 3; if (w == 1) flag("COMEX_STATIC_BUFFER_SIZE", 1024 + BIT() % 1024); else unsetenv("COMEX_STATIC_BUFFER_SIZE");
  w = BIT() % 3; if (w == 1) flag("COMEX_MAX_NB_OUTSTANDING", 1 + BIT() % 4); else unsetenv("COMEX_MAX_NB_OUTSTANDING");
}
static void serve(void) { void (*f)(void) = (void (*)(void))sim_sym("GA_Initialize"); MPI_Init(0, 0); f(); die("a progress rank does not return from initialisation"); }
#endif
void sim_run(int np, long seed, void (*f)(int)) {
  int i;
  sim_np = np; ntot = np; body = f; rs = 0x9E3779B97F4A7C15ull * (seed + 1) + 88172645463325252ull; rnd(); rnd();
#ifdef SIM_PR
  pr_begin(seed);
#endif
  if (ntot > MAXL) { fprintf(stderr, "sim: too many ranks\n"); _exit(3); }
  for (i = 0; i < ntot; i++) load(i);
  for (i = 0; i < ntot; i++) {
    fb[i].stk = mmap(0, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(fb[i].stk, 4096, PROT_NONE);
    getcontext(&fb[i].c); fb[i].c.uc_stack.ss_sp = fb[i].stk; fb[i].c.uc_stack.ss_size = STK; fb[i].c.uc_link = 0; fb[i].done = 0;
    makecontext(&fb[i].c, fiber, 0);
  }
  sim_me = -1; vs_in_fiber = 1; memset(nown, 0, sizeof nown);
  sw(pick_next());
  vs_in_fiber = 0;
  for (i = 0; i < ntot; i++) munmap(fb[i].stk, STK);
}
static long hb_n, hb_gen;
void sim_barrier(void) { long g = hb_gen; if (++hb_n == sim_np) { hb_n = 0; hb_gen++; progress(); } else while (hb_gen == g) blocked(); }

/* ------------------------------------------------------------ MPI objects */
typedef struct col { long seq; int kind; int in, out, nb; void *bufs[MAXP]; void *res[MAXP]; const void *src[MAXP]; int done; struct col *next; int tag[MAXP], key[MAXP]; } col;
struct ompi_communicator_t { int ctx, n; int w[MAXP]; long seq[MAXP]; col *cols; int inter; int na, a[MAXP], nb, b[MAXP]; struct ompi_communicator_t *merged; int freed; };
struct ompi_group_t { int n; int w[MAXP]; };
typedef struct { long off, len; } run;
struct ompi_datatype_t { long size, extent; int kind; int nruns; run *runs; };
struct ompi_request_t { int done, recv, src, tag; struct ompi_communicator_t *c; void *buf; long cap; struct ompi_datatype_t *t; int gsrc, gtag; long glen; };
struct ompi_op_t { int kind; };
struct ompi_errhandler_t { int k; };
struct ompi_predefined_communicator_t { struct ompi_communicator_t x; } ompi_mpi_comm_world, ompi_mpi_comm_self, ompi_mpi_comm_null;
struct ompi_predefined_group_t { struct ompi_group_t x; } ompi_mpi_group_null, ompi_mpi_group_empty;
struct ompi_predefined_request_t { struct ompi_request_t x; } ompi_request_null;
struct ompi_predefined_errhandler_t { struct ompi_errhandler_t x; } ompi_mpi_errors_return, ompi_mpi_errors_are_fatal, ompi_mpi_errhandler_null;
struct ompi_predefined_datatype_t { struct ompi_datatype_t x; };
#define DT(n, s, k) struct ompi_predefined_datatype_t ompi_mpi_##n = {{ s, s, k, 0, 0 }};
enum { K_CHAR = 1, K_INT, K_LONG, K_LL, K_FLOAT, K_DOUBLE, K_2INT, K_LI, K_FI, K_DI, K_LLI, K_BYTE };
DT(char, 1, K_CHAR) DT(byte, 1, K_BYTE) DT(int, 4, K_INT) DT(long, 8, K_LONG) DT(long_long_int, 8, K_LL) DT(float, 4, K_FLOAT) DT(double, 8, K_DOUBLE)
DT(2int, 8, K_2INT) DT(long_int, 16, K_LI) DT(float_int, 8, K_FI) DT(double_int, 16, K_DI) DT(datatype_null, 0, 0) DT(unsigned_long, 8, K_LONG)
struct ompi_predefined_op_t { struct ompi_op_t x; };
#define OP(n, k) struct ompi_predefined_op_t ompi_mpi_op_##n = {{ k }};
enum { O_NULL, O_SUM, O_MAX, O_MIN, O_PROD, O_BOR, O_BAND, O_LAND, O_LOR, O_MINLOC, O_MAXLOC };
OP(null, 0) OP(sum, O_SUM) OP(max, O_MAX) OP(min, O_MIN) OP(prod, O_PROD) OP(bor, O_BOR) OP(band, O_BAND) OP(land, O_LAND) OP(lor, O_LOR) OP(minloc, O_MINLOC) OP(maxloc, O_MAXLOC)
#define W (&ompi_mpi_comm_world.x)
static int inited[MAXP], nctx = 10;
/* ranks of a node are consecutive, the serving rank of a node comes last */
static void world(void) { int i, k = 0, n; if (W->n != ntot) { W->n = ntot; for (n = 0; k < ntot && n < ntot; n++) { for (i = 0; i < ntot; i++) if (sim_node(i) == n) W->w[k++] = i; } } }
static int rk(MPI_Comm c) { int i; if (c == &ompi_mpi_comm_self.x) return 0; if (c == W) world(); for (i = 0; i < c->n; i++) if (c->w[i] == sim_me) return i; die("MPI communicator used by one of its members"); return -1; }
static void usable(MPI_Comm c) { if (c == &ompi_mpi_comm_null.x || !c) die("no MPI call on a null communicator"); if (c->freed) die("no MPI call on a freed communicator"); }

int MPI_Init(int *a, char ***b) { (void)a; (void)b; world(); inited[sim_me] = 1; return 0; }
int MPI_Init_thread(int *a, char ***b, int req, int *prov) { MPI_Init(a, b); *prov = req; return 0; }
int MPI_Query_thread(int *p) { *p = MPI_THREAD_MULTIPLE; return 0; }
int MPI_Initialized(int *f) { *f = inited[sim_me]; return 0; }
int MPI_Finalize(void) { inited[sim_me] = 0; return 0; }
int MPI_Abort(MPI_Comm c, int e) { (void)c; die("no MPI_Abort (code %d)", e); return 0; }
double MPI_Wtime(void) { static double t; return t += 1e-6; }
int sim_node_size; /* ranks per simulated node; 0: one node */
int MPI_Get_processor_name(char *s, int *n) { memset(s, 0, 16); sprintf(s, "node%d", sim_node(sim_me)); *n = (int)strlen(s); return 0; }
int MPI_Comm_rank(MPI_Comm c, int *r) { usable(c); *r = rk(c); return 0; }
int MPI_Comm_size(MPI_Comm c, int *n) { usable(c); if (c == W) world(); *n = c == &ompi_mpi_comm_self.x ? 1 : c->n; return 0; }
static MPI_Comm newcomm(int n, const int *w) { MPI_Comm c = calloc(1, sizeof *c); c->ctx = nctx++; c->n = n; memcpy(c->w, w, n * sizeof *w); return c; }
/* --- collectives: rendezvous on (communicator, sequence number) */
static col *enter(MPI_Comm c, int kind, int *meo) {
  int me = rk(c); long s = c->seq[me]++; col *p;
  *meo = me;
  for (p = c->cols; p && p->seq != s; p = p->next) ;
  if (!p) { p = calloc(1, sizeof *p); p->seq = s; p->kind = kind; p->next = c->cols; c->cols = p; }
  if (p->kind != kind) die("collective MPI calls match on all ranks");
  p->in++; progress();
  return p;
}
static void leave(MPI_Comm c, col *p) { if (++p->out == c->n) { col **q = &c->cols; int i; while (*q != p) q = &(*q)->next; *q = p->next; for (i = 0; i < MAXP; i++) free(p->bufs[i]); free(p); } sim_yield(); }
static void all_in(MPI_Comm c, col *p) { while (p->in < c->n) blocked(); progress(); }
int MPI_Barrier(MPI_Comm c) { int me; col *p; usable(c); if (c == &ompi_mpi_comm_self.x) return 0; p = enter(c, 1, &me); all_in(c, p); leave(c, p); return 0; }
static void *dupbuf(const void *s, long n) { void *p = malloc(n ? n : 1); memcpy(p, s, n); return p; }
int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) {
  int me; col *p; long sz = (long)n * t->size; usable(c);
  if (c == &ompi_mpi_comm_self.x || c->n == 1) return 0;
  p = enter(c, 2, &me);
  if (root < 0 || root >= c->n) die("the MPI_Bcast root %d is in the communicator", root);
  if (p->tag[0] && p->tag[0] != root + 1) die("all ranks name the same MPI_Bcast root");
  if (p->key[0] && p->key[0] != sz + 1) die("all ranks pass the same MPI_Bcast length");
  p->tag[0] = root + 1; p->key[0] = sz + 1;
  if (me == root) p->bufs[root] = dupbuf(b, sz);
  else { while (!p->bufs[root]) blocked(); progress(); memcpy(b, p->bufs[root], sz); }
  leave(c, p); return 0;
}
static void comb(int k, int op, void *a, const void *b, long i) {
#define C1(T) { T *x = (T*)a + i; T y = ((const T*)b)[i]; switch (op) { case O_SUM: *x += y; break; case O_MAX: if (y > *x) *x = y; break; case O_MIN: if (y < *x) *x = y; break; case O_PROD: *x *= y; break; case O_LAND: *x = *x && y; break; case O_LOR: *x = *x || y; break; default: goto bits; } return; }
#define CB(T) { T *x = (T*)a + i; T y = ((const T*)b)[i]; if (op == O_BOR) *x |= y; else if (op == O_BAND) *x &= y; else die("MPI operation fits its type"); return; }
#define CL(T) { typedef struct { T v; int i; } P; P *x = (P*)a + i, y = ((const P*)b)[i]; if (op == O_MINLOC) { if (y.v < x->v || (y.v == x->v && y.i < x->i)) *x = y; } else if (op == O_MAXLOC) { if (y.v > x->v || (y.v == x->v && y.i < x->i)) *x = y; } else die("MPI operation fits its type"); return; }
  switch (k) { case K_CHAR: C1(char) case K_INT: C1(int) case K_LONG: C1(long) case K_LL: C1(long long) case K_FLOAT: C1(float) case K_DOUBLE: C1(double)
    case K_2INT: CL(int) case K_LI: CL(long) case K_FI: CL(float) case K_DI: CL(double) case K_LLI: CL(long long) default: die("MPI reduction on a known type"); }
bits:
  switch (k) { case K_CHAR: CB(char) case K_INT: CB(int) case K_LONG: CB(long) case K_LL: CB(long long) default: die("MPI operation fits its type"); }
}
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c) {
  int me, i; long j; col *p; usable(c);
  if (s == MPI_IN_PLACE) s = r;
  if (c == &ompi_mpi_comm_self.x) { if (s != r) memcpy(r, s, n * t->size); return 0; }
  p = enter(c, 3, &me);
  if (p->tag[0] && (p->tag[0] != n + 1 || p->tag[1] != t->kind || p->tag[2] != op->kind)) die("all ranks pass the same count, type and operation to MPI_Allreduce");
  p->tag[0] = n + 1; p->tag[1] = t->kind; p->tag[2] = op->kind;
  p->bufs[me] = dupbuf(s, n * t->size);
  all_in(c, p);
  memcpy(r, p->bufs[0], n * t->size);
  for (i = 1; i < c->n; i++) for (j = 0; j < n; j++) comb(t->kind, op->kind, r, p->bufs[i], j);
  leave(c, p); return 0;
}
int MPI_Allgather(const void *s, int sn, MPI_Datatype st, void *r, int rn, MPI_Datatype rt, MPI_Comm c) {
  int me, i; col *p; long n = (long)rn * rt->size; usable(c);
  if (s == MPI_IN_PLACE) s = (char*)r + rk(c) * n; else if ((long)sn * st->size != n) die("MPI_Allgather counts match");
  if (c == &ompi_mpi_comm_self.x) { memmove(r, s, n); return 0; }
  p = enter(c, 4, &me); p->bufs[me] = dupbuf(s, n); all_in(c, p);
  for (i = 0; i < c->n; i++) memcpy((char*)r + i * n, p->bufs[i], n);
  leave(c, p); return 0;
}
int MPI_Comm_dup(MPI_Comm c, MPI_Comm *o) {
  int me; col *p; usable(c);
  if (c == &ompi_mpi_comm_self.x) { *o = newcomm(1, &sim_me); return 0; }
  p = enter(c, 5, &me); if (!p->res[0]) p->res[0] = newcomm(c->n, c->w); all_in(c, p); *o = p->res[0]; leave(c, p); return 0;
}
int MPI_Comm_split(MPI_Comm c, int color, int key, MPI_Comm *o) {
  int me, i, j, n = 0, m[MAXP]; col *p; usable(c);
  p = enter(c, 6, &me); p->tag[me] = color; p->key[me] = key; all_in(c, p);
  if (color == MPI_UNDEFINED) *o = MPI_COMM_NULL;
  else {
    for (i = 0; i < c->n; i++) if (p->tag[i] == color) { for (j = n++; j > 0 && p->key[m[j - 1]] > p->key[i]; j--) m[j] = m[j - 1]; m[j] = i; }
    if (!p->res[m[0]]) { int w[MAXP]; for (i = 0; i < n; i++) w[i] = c->w[m[i]]; p->res[m[0]] = newcomm(n, w); }
    *o = p->res[m[0]];
  }
  leave(c, p); return 0;
}
int MPI_Comm_free(MPI_Comm *c) { usable(*c); if (*c != W && *c != &ompi_mpi_comm_self.x) { int me; col *p = enter(*c, 7, &me); MPI_Comm k = *c; all_in(k, p); leave(k, p); } *c = MPI_COMM_NULL; return 0; }
int MPI_Comm_group(MPI_Comm c, MPI_Group *g) { usable(c); if (c == W) world(); *g = calloc(1, sizeof **g); (*g)->n = c->n; memcpy((*g)->w, c->w, sizeof c->w); return 0; }
int MPI_Group_free(MPI_Group *g) { if (*g != &ompi_mpi_group_null.x) free(*g); *g = MPI_GROUP_NULL; return 0; }
int MPI_Group_size(MPI_Group g, int *n) { if (g == &ompi_mpi_group_null.x) die("no MPI call on a null group"); *n = g->n; return 0; }
int MPI_Group_rank(MPI_Group g, int *r) { int i; if (g == &ompi_mpi_group_null.x) die("no MPI call on a null group"); *r = MPI_UNDEFINED; for (i = 0; i < g->n; i++) if (g->w[i] == sim_me) *r = i; return 0; }
int MPI_Group_incl(MPI_Group g, int n, const int *r, MPI_Group *o) {
  int i, j; *o = calloc(1, sizeof **o); (*o)->n = n; if (n > g->n) die("MPI group members are ranks of the parent");
  for (i = 0; i < n; i++) { if (r[i] < 0 || r[i] >= g->n) die("MPI group members are ranks of the parent"); for (j = 0; j < i; j++) if (r[j] == r[i]) die("MPI group members are distinct"); (*o)->w[i] = g->w[r[i]]; } return 0; }
int MPI_Group_translate_ranks(MPI_Group a, int n, const int *ra, MPI_Group b, int *rb) {
  int i, j; if (a == &ompi_mpi_group_null.x || b == &ompi_mpi_group_null.x) die("no MPI call on a null group");
  for (i = 0; i < n; i++) { if (ra[i] < 0 || ra[i] >= a->n) die("translated ranks are ranks of the group (%d of %d)", ra[i], a->n); rb[i] = MPI_UNDEFINED; for (j = 0; j < b->n; j++) if (b->w[j] == a->w[ra[i]]) rb[i] = j; } return 0; }
/* --- point to point */
typedef struct msg { int ctx, from, to, tag; long len; char *d; struct msg *next; struct ompi_request_t *sr; } msg;
static msg *mq, **mqt = &mq;
static int wr(MPI_Comm c, int r) { if (c == W) world(); if (r < 0 || r >= c->n) die("an MPI message names a rank of its communicator (%d of %d)", r, c->n); return c->w[r]; }
static void gather_runs(char *d, const char *b, int n, MPI_Datatype t, int back) {
  long i, j; for (i = 0; i < n; i++) { const char *s = b + i * t->extent; if (!t->nruns) { if (back) memcpy((char*)s, d, t->size); else memcpy(d, s, t->size); d += t->size; }
    else for (j = 0; j < t->nruns; j++) { if (back) memcpy((char*)s + t->runs[j].off, d, t->runs[j].len); else memcpy(d, s + t->runs[j].off, t->runs[j].len); d += t->runs[j].len; } } }
static void post(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) {
  msg *m = calloc(1, sizeof *m); usable(c); m->ctx = c->ctx; m->from = sim_me; m->to = wr(c, dst); m->tag = tag; m->len = n * t->size; m->d = malloc(m->len + 1);
  if (n < 0) die("MPI message length is not negative");
  if (t->nruns) gather_runs(m->d, b, n, t, 0); else memcpy(m->d, b, m->len);
  *mqt = m; mqt = &m->next; progress();
}
static msg **find(int src, int tag, MPI_Comm c) {
  msg **p; int w = src == MPI_ANY_SOURCE ? -1 : wr(c, src);
  for (p = &mq; *p; p = &(*p)->next) if ((*p)->ctx == c->ctx && (*p)->to == sim_me && (w < 0 || (*p)->from == w) && (tag == MPI_ANY_TAG || (*p)->tag == tag)) return p;
  return 0;
}
static int crank(MPI_Comm c, int w) { int i; for (i = 0; i < c->n; i++) if (c->w[i] == w) return i; return -1; }
static void setst(MPI_Status *s, int src, int tag, long len) { if (s != MPI_STATUS_IGNORE) { s->MPI_SOURCE = src; s->MPI_TAG = tag; s->MPI_ERROR = 0; s->_ucount = len; } }
int MPI_Isend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) {
  post(b, n, t, dst, tag, c); *r = calloc(1, sizeof **r); (*r)->done = 1; return 0; }
int MPI_Issend(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) { return MPI_Isend(b, n, t, dst, tag, c, r); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c) { post(b, n, t, dst, tag, c); sim_yield(); return 0; }
static int take(struct ompi_request_t *q) {
  msg **p = find(q->src, q->tag, q->c), *m; if (!p) return 0; m = *p;
  if (m->len > q->cap * q->t->size) die("an MPI message fits its receive buffer (%ld > %ld bytes)", m->len, q->cap * q->t->size);
  if (q->t->nruns) gather_runs(m->d, q->buf, m->len / q->t->size, q->t, 1); else memcpy(q->buf, m->d, m->len);
  q->gsrc = crank(q->c, m->from); q->gtag = m->tag; q->glen = m->len; q->done = 1;
  *p = m->next; if (mqt == &m->next) mqt = p; free(m->d); free(m); progress(); return 1;
}
/* posted receives match in the order they were posted: an earlier pending receive of this rank that accepts the message gets it */
static struct ompi_request_t *pend[MAXP][1024]; static int npend[MAXP];
static void unpend(struct ompi_request_t *q) { int i, k = 0; for (i = 0; i < npend[sim_me]; i++) if (pend[sim_me][i] != q) pend[sim_me][k++] = pend[sim_me][i]; npend[sim_me] = k; }
static void match(void) { int i; for (i = 0; i < npend[sim_me]; ) { struct ompi_request_t *q = pend[sim_me][i]; if (take(q)) unpend(q); else i++; } }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Request *r) {
  struct ompi_request_t *q = calloc(1, sizeof *q); usable(c);
  q->recv = 1; q->buf = b; q->cap = n; q->t = t; q->src = src; q->tag = tag; q->c = c;
  if (npend[sim_me] >= 1024) die("at most 1024 receives are pending");
  pend[sim_me][npend[sim_me]++] = q; *r = q; return 0; }
int MPI_Test(MPI_Request *r, int *flag, MPI_Status *s) {
  struct ompi_request_t *q = *r;
  if (q == &ompi_request_null.x) { *flag = 1; setst(s, MPI_ANY_SOURCE, MPI_ANY_TAG, 0); return 0; }
  if (q->recv && !q->done) match();
  *flag = q->done;
  if (!q->done) { blocked(); return 0; }
  setst(s, q->gsrc, q->gtag, q->glen); free(q); *r = MPI_REQUEST_NULL; sim_yield(); return 0; }
int MPI_Wait(MPI_Request *r, MPI_Status *s) { int f = 0; while (!f) MPI_Test(r, &f, s); return 0; }
int MPI_Waitall(int n, MPI_Request *r, MPI_Status *s) { int i; for (i = 0; i < n; i++) MPI_Wait(r + i, s == MPI_STATUSES_IGNORE ? MPI_STATUS_IGNORE : s + i); return 0; }
int MPI_Recv(void *b, int n, MPI_Datatype t, int src, int tag, MPI_Comm c, MPI_Status *s) { MPI_Request r; MPI_Irecv(b, n, t, src, tag, c, &r); return MPI_Wait(&r, s); }
int MPI_Iprobe(int src, int tag, MPI_Comm c, int *flag, MPI_Status *s) {
  msg **p; usable(c); match(); p = rnd() % 3 ? find(src, tag, c) : 0; *flag = p != 0;
  if (p) setst(s, crank(c, (*p)->from), (*p)->tag, (*p)->len); else blocked();
  return 0; }
int MPI_Probe(int src, int tag, MPI_Comm c, MPI_Status *s) { int f = 0; while (!f) MPI_Iprobe(src, tag, c, &f, s); return 0; }
int MPI_Get_count(const MPI_Status *s, MPI_Datatype t, int *n) { *n = (int)(s->_ucount / t->size); return 0; }
/* --- datatypes */
int MPI_Type_size(MPI_Datatype t, int *n) { *n = (int)t->size; return 0; }
static void addrun(MPI_Datatype t, long off, long len) { if (t->nruns && t->runs[t->nruns-1].off + t->runs[t->nruns-1].len == off) { t->runs[t->nruns-1].len += len; return; } t->runs = realloc(t->runs, (t->nruns + 1) * sizeof(run)); t->runs[t->nruns].off = off; t->runs[t->nruns++].len = len; }
int MPI_Type_create_struct(int n, const int *b, const MPI_Aint *d, const MPI_Datatype *ty, MPI_Datatype *o) {
  int i; *o = calloc(1, sizeof **o); (*o)->kind = (n == 2 && ty[0]->kind == K_LL) ? K_LLI : 0;
  for (i = 0; i < n; i++) { addrun(*o, d[i], b[i] * ty[i]->size); (*o)->size += b[i] * ty[i]->size; if (d[i] + b[i] * ty[i]->extent > (*o)->extent) (*o)->extent = d[i] + b[i] * ty[i]->extent; }
  if ((*o)->kind == K_LLI) { (*o)->size = (*o)->extent = 16; (*o)->nruns = 0; }
  return 0; }
int MPI_Type_contiguous(int n, MPI_Datatype t, MPI_Datatype *o) { int i, j; *o = calloc(1, sizeof **o); (*o)->size = n * t->size; (*o)->extent = n * t->extent; if (t->nruns) for (i = 0; i < n; i++) for (j = 0; j < t->nruns; j++) addrun(*o, i * t->extent + t->runs[j].off, t->runs[j].len); return 0; }
int MPI_Type_create_hvector(int n, int bl, MPI_Aint st, MPI_Datatype t, MPI_Datatype *o) {
  long i, k; int j; *o = calloc(1, sizeof **o); (*o)->size = (long)n * bl * t->size; (*o)->extent = (n - 1) * st + bl * t->extent;
  for (i = 0; i < n; i++) for (k = 0; k < bl; k++) if (t->nruns) for (j = 0; j < t->nruns; j++) addrun(*o, i * st + k * t->extent + t->runs[j].off, t->runs[j].len); else addrun(*o, i * st + k * t->extent, t->extent);
  return 0; }
int MPI_Type_create_subarray(int nd, const int *sz, const int *sub, const int *st, int order, MPI_Datatype t, MPI_Datatype *o) {
  long i, tot = 1, rows = 1; int d, ix[16] = {0}; *o = calloc(1, sizeof **o);
  for (d = 0; d < nd; d++) { if (sub[d] < 1 || st[d] < 0 || st[d] + sub[d] > sz[d]) die("MPI subarray lies within its array"); tot *= sz[d]; if (order == MPI_ORDER_FORTRAN ? d > 0 : d < nd - 1) rows *= sub[d]; }
  (*o)->extent = tot * t->size;
  for (i = 0; i < rows; i++) {
    long off = 0, k = i, f = 1; int q;
    if (order == MPI_ORDER_FORTRAN) { for (d = 1; d < nd; d++) { ix[d] = k % sub[d]; k /= sub[d]; } ix[0] = 0; for (d = 0; d < nd; d++) { off += (st[d] + ix[d]) * f; f *= sz[d]; } q = sub[0]; }
    else { for (d = nd - 2; d >= 0; d--) { ix[d] = k % sub[d]; k /= sub[d]; } ix[nd - 1] = 0; for (d = nd - 1; d >= 0; d--) { off += (st[d] + ix[d]) * f; f *= sz[d]; } q = sub[nd - 1]; }
    addrun(*o, off * t->size, q * t->size); (*o)->size += q * t->size;
  }
  return 0; }
int MPI_Type_commit(MPI_Datatype *t) { (void)t; return 0; }
int MPI_Type_free(MPI_Datatype *t) { *t = MPI_DATATYPE_NULL; return 0; }
/* --- inter communicators */
int MPI_Intercomm_create(MPI_Comm lc, int ll, MPI_Comm pc, int rl, int tag, MPI_Comm *o) {
  int me; MPI_Comm x = 0; MPI_Status s;
  if (lc == &ompi_mpi_comm_self.x) lc = newcomm(1, &sim_me);
  me = rk(lc);
  if (me == ll) {
    int prl = wr(pc, rl); MPI_Comm mine = lc, other = 0; MPI_Request rr;
    MPI_Irecv(&other, sizeof other, MPI_BYTE, rl, tag, pc, &rr);
    MPI_Send(&mine, sizeof mine, MPI_BYTE, rl, tag, pc); MPI_Wait(&rr, &s);
    MPI_Irecv(&x, sizeof x, MPI_BYTE, rl, tag, pc, &rr);
    if (sim_me < prl) {
      MPI_Comm y = calloc(1, sizeof *y); y->inter = 1; y->ctx = nctx++; y->na = lc->n; memcpy(y->a, lc->w, sizeof y->a); y->nb = other->n; memcpy(y->b, other->w, sizeof y->b);
      y->n = y->na + y->nb; memcpy(y->w, y->a, y->na * sizeof(int)); memcpy(y->w + y->na, y->b, y->nb * sizeof(int));
      MPI_Send(&y, sizeof y, MPI_BYTE, rl, tag, pc); MPI_Wait(&rr, &s); x = y;
    } else { MPI_Wait(&rr, &s); MPI_Send(&x, sizeof x, MPI_BYTE, rl, tag, pc); }
  }
  MPI_Bcast(&x, sizeof x, MPI_BYTE, ll, lc); *o = x; return 0;
}
int MPI_Intercomm_merge(MPI_Comm x, int high, MPI_Comm *o) {
  int i, ina = 0, w[MAXP * 2], me; col *p; usable(x);
  for (i = 0; i < x->na; i++) if (x->a[i] == sim_me) ina = 1;
  p = enter(x, 8, &me); p->tag[me] = high; all_in(x, p);
  if (p->tag[0] == p->tag[x->n - 1]) die("the two sides of MPI_Intercomm_merge differ");
  if (!x->merged) {
    int afirst = ina ? !high : high;
    if (afirst) { memcpy(w, x->a, x->na * sizeof(int)); memcpy(w + x->na, x->b, x->nb * sizeof(int)); }
    else { memcpy(w, x->b, x->nb * sizeof(int)); memcpy(w + x->nb, x->a, x->na * sizeof(int)); }
    x->merged = newcomm(x->n, w);
  }
  *o = x->merged; leave(x, p); return 0;
}
int MPI_Error_string(int c, char *s, int *n) { *n = sprintf(s, "error %d", c); return 0; }
int MPI_Comm_set_errhandler(MPI_Comm c, MPI_Errhandler e) { (void)c; (void)e; return 0; }
int MPI_Errhandler_set(MPI_Comm c, MPI_Errhandler e) { (void)c; (void)e; return 0; }
