/* Contract-harness vocabulary.  One harness, three readings:
 *   gvc    (VS_GVC)    : symbolic, unbounded; REQUIRE -> assumption, ENSURE -> proof obligation
 *   cbmc   (VS_CBMC)   : symbolic, bounded loops, bit precise
 *   native (VS_NATIVE) : the same contract executed on the real code with concrete inputs
 */
#ifndef VS_H
#define VS_H

extern long   vs_case(const char *name, long lo, long hi);
extern long   vs_long(const char *name, long lo, long hi);
/* an arbitrary but fixed value the proof may instantiate array invariants at */
extern long   vs_witness(const char *name, long lo, long hi);
extern int    vs_int(const char *name, long lo, long hi);
extern double vs_double(const char *name);
extern float  vs_float(const char *name);
/* arrays of n (<= cap when bounded) arbitrary values in lo..hi */
extern long  *vs_longs(const char *name, long n, long cap, long lo, long hi);
extern int   *vs_ints(const char *name, long n, long cap, long lo, long hi);
extern double *vs_doubles(const char *name, long n, long cap);
extern float  *vs_floats(const char *name, long n, long cap);
/* n complex values of the type *proto (dbl: components are double, else float) */
extern void *vs_cpls(const char *name, long n, long cap, void *proto, int dbl);
/* n values, a[0]==first, a[i]+mindiff <= a[i+1], last <= hi */
extern long  *vs_ascending(const char *name, long n, long cap, long first, long mindiff, long hi);
/* nseg consecutive segments of len[s] >= 1 values: each starts at `first`, steps by >= mindiff (0 or 1), stays <= hi[s] */
extern long  *vs_segments(const char *name, long nseg, int *len, long cap, long first, long mindiff, long *hi);
/* a permutation p of 0..n-1 and its inverse q */
extern void   vs_perm(const char *name, long n, long cap, int **p, int **q);
extern char  *vs_arena(const char *name);
/* an arena of integers of so many bits */
extern char  *vs_arena_of(const char *name, int bits);
extern char **vs_ptrs(const char *name, long n, long cap, char *arena, long spacing);
extern void  *vs_bytes(const char *name, long n, long cap);
extern void   vs_reach(const char *name);
extern void   vs_abort(void);

#ifdef VS_NATIVE
  extern void vs_assume(int);
  extern void vs_check(int, const char *);
  extern void vs_register(const char *, int (*)(void));
# define REQUIRE(c)      vs_assume(!!(c))
# define ENSURE(c, lab)  vs_check(!!(c), lab)
# define GHOST(c)        ((void)0)
# define VS_BOUND(unb, bnd) (bnd)
  extern int vs_replaying;   /* replayed inputs (solver models) may be larger than searched ones */
# define VS_LIM(unb, bnd) (vs_replaying ? (unb) : (bnd))
# define VS_ENTRY(n) int n(void); \
    __attribute__((constructor)) static void vs_reg_##n(void){ vs_register(#n, n); } int n(void)
#else
# define REQUIRE(c)      __CPROVER_assume(c)
# define ENSURE(c, lab)  __CPROVER_assert(c, lab)
/* a lemma: proved, then available to the obligations after it */
# define GHOST(c)        __CPROVER_assert(c, "lemma: " #c)
# ifdef VS_GVC
#  define VS_BOUND(unb, bnd) (unb)
#  define VS_LIM(unb, bnd) (unb)
# else
#  define VS_BOUND(unb, bnd) (bnd)
#  define VS_LIM(unb, bnd) (bnd)
# endif
# define VS_ENTRY(n) int n(void)
#endif
#endif
