/* inside every library copy: exact-size MA allocations (so that the address sanitizer sees each one) and naive BLAS */
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "macdecls.h"
#include "typesf2c.h"
#if defined(BLAS_SIZE) && BLAS_SIZE == 8
#define BlasInt long
#elif !defined(BlasInt)
#define BlasInt int
#endif
static void sim_die(const char *s) { extern void vs_check(int, const char *); vs_check(0, s); }
static struct { void *p; long nel; Integer type; int used, stack; } h[4096]; static int nh;
static long sz(Integer t) {
  switch (t) { case MT_C_CHAR: return 1; case MT_C_INT: return sizeof(int); case MT_C_LONGINT: return sizeof(long); case MT_C_FLOAT: return 4; case MT_C_DBL: return 8; case MT_C_SCPL: return 8; case MT_C_DCPL: return 16; case MT_C_LONGLONG: return 8;
    case MT_F_BYTE: return 1; case MT_F_INT: return sizeof(Integer); case MT_F_LOG: return sizeof(Integer); case MT_F_REAL: return sizeof(Real); case MT_F_DBL: return 8; case MT_F_SCPL: return 8; case MT_F_DCPL: return 16; }
  sim_die("MA allocation of a known type"); return 1; }
static Boolean add(Integer t, Integer n, Integer *m, int st) { int i; for (i = 1; i < 4096 && h[i].used; i++) ; if (i == 4096) return MA_FALSE; h[i].used = 1; h[i].nel = n; h[i].type = t; h[i].stack = st; h[i].p = malloc(n * sz(t) > 0 ? n * sz(t) : 1); memset(h[i].p, 0xa5, n * sz(t)); *m = i; nh++; return MA_TRUE; }
Boolean MA_push_stack(Integer t, Integer n, const char *s, Integer *m) { return add(t, n, m, 1); }
Boolean MA_allocate_heap(Integer t, Integer n, const char *s, Integer *m) { return add(t, n, m, 0); }
Boolean MA_get_pointer(Integer m, void *pp) { if (m < 1 || m >= 4096 || !h[m].used) sim_die("MA handle in use"); *(void**)pp = h[m].p; return MA_TRUE; }
static Boolean del(Integer m) { if (m < 1 || m >= 4096 || !h[m].used) sim_die("MA handle in use"); free(h[m].p); h[m].used = 0; nh--; return MA_TRUE; }
Boolean MA_pop_stack(Integer m) { return del(m); }
Boolean MA_chop_stack(Integer m) { return del(m); }
Boolean MA_free_heap(Integer m) { return del(m); }
int sim_ma_in_use(void) { return nh; }
Integer MA_inquire_avail(Integer t) { return (1L << 32) / sz(t); }
Integer MA_sizeof(Integer t1, Integer n, Integer t2) { return (n * sz(t1) + sz(t2) - 1) / sz(t2); }
Integer MA_sizeof_overhead(Integer t) { return 0; }
Integer MA_sizeof_arith(Integer t) { return sz(t); }
Boolean MA_init(Integer t, Integer a, Integer b) { return MA_TRUE; }
Boolean MA_initialized(void) { return MA_TRUE; }
static double mb[2];
Pointer MA_get_mbase(Integer t) { return (Pointer)mb; }
void MA_set_error_callback(void (*f)()) { }
void MA_summarize_allocated_blocks(void) {}
Boolean MA_get_index(Integer m, MA_AccessIndex *i) { *i = 0; return MA_TRUE; }
#define GEMM(name, T, CP) void name(char *ta, char *tb, BlasInt *m, BlasInt *n, BlasInt *k, void *al, void *a_, BlasInt *lda, void *b_, BlasInt *ldb, void *be, void *c_, BlasInt *ldc) { \
  long i, j, l; T *a = a_, *b = b_, *c = c_, alpha = *(T*)al, beta = *(T*)be; \
  for (j = 0; j < *n; j++) for (i = 0; i < *m; i++) { T s = 0; for (l = 0; l < *k; l++) { \
    T x = (*ta == 'n' || *ta == 'N') ? a[i + l * *lda] : a[l + i * *lda], y = (*tb == 'n' || *tb == 'N') ? b[l + j * *ldb] : b[j + l * *ldb]; s += x * y; } \
    c[i + j * *ldc] = alpha * s + (beta == 0 ? 0 : beta * c[i + j * *ldc]); } }
GEMM(gal_dgemm_, double, 0) GEMM(gal_sgemm_, float, 0) GEMM(gal_zgemm_, double _Complex, 1) GEMM(gal_cgemm_, float _Complex, 1)
Boolean MA_push_get(Integer t, Integer n, const char *s, Integer *m, MA_AccessIndex *i) { *i = 0; return add(t, n, m, 1); }
void gal_dgetrf_(void) { sim_die("harness: LAPACK is outside the simulation"); }
void gal_dgetrs_(void) { sim_die("harness: LAPACK is outside the simulation"); }
void gai_diag_seq_(void) { sim_die("harness: LAPACK is outside the simulation"); }
void gai_diag_std_seq_(void) { sim_die("harness: LAPACK is outside the simulation"); }
#include <mpi.h>
#undef MPI_Comm_c2f
int MPI_Comm_c2f(MPI_Comm c) { return 0; }
int f2c_iargc_(void) { return 0; }
void f2c_getarg_(void) { }
#ifndef SIM_PR
extern void sim_own(void *, long), sim_disown(void *);
extern int __real_comex_malloc(void **, size_t, int), __real_comex_free(void *, int), comex_group_rank(int, int *);
int __wrap_comex_malloc(void **p, size_t n, int g) { int r = -1, e = __real_comex_malloc(p, n, g); if (!comex_group_rank(g, &r) && r >= 0) sim_own(p[r], (long)n); return e; }
int __wrap_comex_free(void *p, int g) { sim_disown(p); return __real_comex_free(p, g); }
#endif
