/* common parts of the harnesses that execute the real library SPMD in the simulator */
#ifndef SIM_GA_H
#define SIM_GA_H
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "globalp.h"
#include "base.h"
#include "ga-papi.h"
#include "sim.h"
extern void GA_Initialize(void); extern void GA_Terminate(void);
extern int MPI_Init(int *, char ***); extern int MPI_Finalize(void);
extern int sim_ma_in_use(void);
static int sg_ma0[16], sg_nh[16]; static Integer sg_h[16][256]; /* memory blocks at the start and array handles of the harness */
#define GA_INIT() (MPI_Init(0, 0), S(GA_Initialize)(), sg_nh[sim_me] = 0, (void)(sg_ma0[sim_me] = S(sim_ma_in_use)()))
#define GA_TERM() (sg_leaks(), S(GA_Terminate)(), MPI_Finalize())
static void sg_leaks(void) { global_array_t *ga; int i, j;
  ENSURE(S(sim_ma_in_use)() == sg_ma0[sim_me], "operations release the memory they allocate");
  ga = SV(_ga_main_data_structure);
  for (i = 0; i < SV(_max_global_array); i++) if (ga[i].actv) { for (j = 0; j < sg_nh[sim_me] && sg_h[sim_me][j] + GA_OFFSET != i; j++) ; ENSURE(j < sg_nh[sim_me], "operations release the arrays they create"); } }
enum { KREG, KCHUNK, KIRREG, KBC, KSL, KTILED, KTIRREG };
typedef struct { int kind, nd, type, ghosts, restr, nrl; long rl[8]; Integer dims[MAXDIM], chunk[MAXDIM], nb[MAXDIM], map[MAXDIM * 40], bd[MAXDIM], pg[MAXDIM], w[MAXDIM]; } adesc;
static int sg_np; static long sg_seed;
static const int sg_types[] = { C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL };
static int sg_size(int t) { switch (sg_types[t]) { case C_INT: case C_FLOAT: return 4; case C_LONG: case C_DBL: case C_SCPL: return 8; default: return 16; } }
static int sg_cpl(int t) { return t >= 4; }
typedef struct { double re, im; } val;
static void enc(void *p, int t, val v) { switch (sg_types[t]) { case C_INT: *(int*)p = (int)v.re; break; case C_LONG: *(long*)p = (long)v.re; break; case C_FLOAT: *(float*)p = v.re; break; case C_DBL: *(double*)p = v.re; break;
  case C_SCPL: ((float*)p)[0] = v.re; ((float*)p)[1] = v.im; break; case C_DCPL: ((double*)p)[0] = v.re; ((double*)p)[1] = v.im; break; } }
static val dec(const void *p, int t) { val v = { 0, 0 }; switch (sg_types[t]) { case C_INT: v.re = *(int*)p; break; case C_LONG: v.re = *(long*)p; break; case C_FLOAT: v.re = *(float*)p; break; case C_DBL: v.re = *(double*)p; break;
  case C_SCPL: v.re = ((float*)p)[0]; v.im = ((float*)p)[1]; break; case C_DCPL: v.re = ((double*)p)[0]; v.im = ((double*)p)[1]; break; } return v; }
static val v_mul(val a, val b, int t) { val r = { a.re * b.re - (sg_cpl(t) ? a.im * b.im : 0), sg_cpl(t) ? a.re * b.im + a.im * b.re : 0 }; return r; }
static val v_add(val a, val b) { val r = { a.re + b.re, a.im + b.im }; return r; }
static int v_eq(val a, val b, int t) { return a.re == b.re && (!sg_cpl(t) || a.im == b.im); }
static val v_rnd(const char *n, long m, int t) { val v; v.re = vs_long(n, -m, m); v.im = sg_cpl(t) ? vs_long(n, -m, m) : 0; return v; }
/* small deterministic stream for bulk values (derived from one recorded seed) */
static unsigned long long sg_x(unsigned long long *s) { *s ^= *s << 13; *s ^= *s >> 7; *s ^= *s << 17; return *s >> 11; }
static val v_s(unsigned long long *s, int m, int t) { val v; v.re = (double)(long)(sg_x(s) % (2 * m + 1)) - m; v.im = sg_cpl(t) ? (double)(long)(sg_x(s) % (2 * m + 1)) - m : 0; return v; }

static void sg_begin(int maxp) { sg_np = (int)vs_long("np", 1, maxp); sg_seed = vs_long("schedule", 1, 1L << 30);
#ifdef SIM_PR
  sim_node_size = (int)vs_long("node", 1, sg_np); REQUIRE(sg_np + (sg_np + sim_node_size - 1) / sim_node_size <= 8);
#endif
}
/* draws the shape and layout of an array */
static void sg_draw(adesc *a, int nd, int kind, int type, long maxd) {
  int d, i; long tot = 1;
  memset(a, 0, sizeof *a); a->nd = nd; a->kind = kind; a->type = type;
  for (d = 0; d < nd; d++) a->dims[d] = vs_long("dims", 1, maxd);
  if (kind == KCHUNK) for (d = 0; d < nd; d++) a->chunk[d] = vs_long("chunk", -1, a->dims[d]);
  if (kind == KIRREG) {
    int n = 0; long p = 1;
    for (d = 0; d < nd; d++) {
      long m = sg_np / p; if (m > a->dims[d]) m = a->dims[d];
      a->nb[d] = vs_long("nblock", 1, m); p *= a->nb[d];
      for (i = 0; i < a->nb[d]; i++) a->map[n + i] = i == 0 ? 1 : vs_long("map", a->map[n + i - 1] + 1, a->dims[d] - (a->nb[d] - 1 - i));
      n += a->nb[d];
    }
  }
  if (kind == KBC || kind == KSL || kind == KTILED) for (d = 0; d < nd; d++) a->bd[d] = vs_long("block", 1, a->dims[d]);
  if (kind == KSL || kind == KTILED || kind == KTIRREG) { /* a process grid over exactly all processes */
    long p = sg_np; for (d = 0; d < nd - 1; d++) { long k = vs_long("pgrid", 1, p); while (p % k) k--; a->pg[d] = k; p /= k; } a->pg[nd - 1] = p; }
  if (kind == KTIRREG) { int n = 0; for (d = 0; d < nd; d++) { a->nb[d] = vs_long("nblock", 1, a->dims[d] < 5 ? a->dims[d] : 5);
      for (i = 0; i < a->nb[d]; i++) a->map[n + i] = i == 0 ? 1 : vs_long("map", a->map[n + i - 1] + 1, a->dims[d] - (a->nb[d] - 1 - i)); n += a->nb[d]; } }
  for (d = 0; d < nd; d++) tot *= a->dims[d];
  REQUIRE(tot <= 4000);
}
static void sg_ghosts(adesc *a, long m) { int d; long p = 1; for (d = 0; d < a->nd; d++) p *= a->nb[d]; if (p != sg_np) return; /* every process holds data */
  a->ghosts = 1; for (d = 0; d < a->nd; d++) { /* no block is narrower than the ghost width */
    long b = a->dims[d]; int i, o = 0, e; for (i = 0; i < d; i++) o += a->nb[i];
    if (a->kind != KIRREG) b = 0;
    for (i = 0; i < a->nb[d]; i++) { long n = (i + 1 < a->nb[d] ? a->map[o + i + 1] : a->dims[d] + 1) - a->map[o + i]; if (n < b) b = n; }
    a->w[d] = vs_long("width", 0, m < b ? m : b); } }
static void sg_restrict(adesc *a) { int i, j; a->restr = 1; a->nrl = (int)vs_long("nrestricted", 1, sg_np);
  for (i = 0; i < a->nrl; i++) { long p = vs_long("rproc", 0, sg_np - 1); for (;;) { for (j = 0; j < i && a->rl[j] != p; j++) ; if (j == i) break; p = (p + 1) % sg_np; } a->rl[i] = p; } }
static long sg_elems(const adesc *a) { long n = 1; int d; for (d = 0; d < a->nd; d++) n *= a->dims[d]; return n; }
static long sg_lin(const adesc *a, const Integer *s) { long n = 0; int d; for (d = a->nd - 1; d >= 0; d--) n = n * a->dims[d] + s[d] - 1; return n; }
static Integer sg_create_g(const adesc *a, Integer grp) {
  Integer g = S(pnga_create_handle)(), c[MAXDIM]; int d; adesc b = *a;
  S(pnga_set_data)(g, b.nd, b.dims, sg_types[b.type]);
  if (grp >= 0) S(pnga_set_pgroup)(g, grp);
  if (b.ghosts) S(pnga_set_ghosts)(g, b.w);
  switch (b.kind) {
  case KCHUNK: S(pnga_set_chunk)(g, b.chunk); break;
  case KIRREG: S(pnga_set_irreg_distr)(g, b.map, b.nb); break;
  case KBC: S(pnga_set_block_cyclic)(g, b.bd); break;
  case KSL: S(pnga_set_block_cyclic_proc_grid)(g, b.bd, b.pg); break;
  case KTILED: S(pnga_set_tiled_proc_grid)(g, b.bd, b.pg); break;
  case KTIRREG: S(pnga_set_tiled_irreg_proc_grid)(g, b.map, b.nb, b.pg); break;
  }
  if (b.restr) S(pnga_set_restricted)(g, b.rl, b.nrl);
  ENSURE(S(pnga_allocate)(g) == TRUE, "an array is created");
  if (sg_nh[sim_me] < 256) sg_h[sim_me][sg_nh[sim_me]++] = g;
  return g;
}
static Integer sg_create(const adesc *a) { return sg_create_g(a, -1); }
/* model of the contents */
typedef struct { adesc *a; val *v, *alt; } model; /* alt: a second admissible value (near ties) */
static model m_new(adesc *a) { model m; m.a = a; m.v = calloc(sg_elems(a), sizeof(val)); m.alt = 0; return m; }
/* a patch and a local buffer for it */
typedef struct { Integer lo[MAXDIM], hi[MAXDIM], ld[MAXDIM], skip[MAXDIM], cnt[MAXDIM]; long n, span; } patch;
static void p_count(const adesc *a, patch *p, int strided) { int d; p->n = 1; p->span = 1; long f = 1;
  for (d = 0; d < a->nd; d++) { p->cnt[d] = strided ? (p->hi[d] - p->lo[d]) / p->skip[d] + 1 : p->hi[d] - p->lo[d] + 1; p->n *= p->cnt[d]; p->span += (p->cnt[d] - 1) * f; f *= d < a->nd - 1 ? p->ld[d] : 1; } }
static patch p_s(const adesc *a, unsigned long long *s, int strided, int slice, int nslice) {
  patch p; int d; memset(&p, 0, sizeof p);
  for (d = 0; d < a->nd; d++) {
    long b = 1, e = a->dims[d], r = sg_x(s) % 8, x, y;
    if (nslice > 1 && d == a->nd - 1) { b = 1 + a->dims[d] * slice / nslice; e = a->dims[d] * (slice + 1) / nslice; if (e < b) { p.n = 0; return p; } }
    x = b + sg_x(s) % (e - b + 1); y = b + sg_x(s) % (e - b + 1); if (r == 0) { x = b; y = e; } if (r == 1) y = x; if (x > y) { long t = x; x = y; y = t; }
    p.lo[d] = x; p.hi[d] = y; p.skip[d] = strided ? 1 + sg_x(s) % 4 : 1;
  }
  for (d = 0; d < a->nd; d++) { long c = strided ? (p.hi[d] - p.lo[d]) / p.skip[d] + 1 : p.hi[d] - p.lo[d] + 1; p.ld[d] = c + (sg_x(s) % 3 == 0 ? sg_x(s) % 3 : 0); }
  p_count(a, &p, strided);
  return p;
}
/* k-th element of a patch: subscript and offset (in elements) in the local buffer */
static long p_elem(const adesc *a, const patch *p, long k, Integer *sub) { int d; long off = 0, f = 1; for (d = 0; d < a->nd; d++) { long i = k % p->cnt[d]; k /= p->cnt[d]; sub[d] = p->lo[d] + i * p->skip[d]; off += i * f; if (d < a->nd - 1) f *= p->ld[d]; } return off; }
static void p_skip1(patch *p, int nd) { int d; for (d = 0; d < nd; d++) p->skip[d] = 1; }
static void sg_whole(const adesc *a, patch *p) { int d; memset(p, 0, sizeof *p); for (d = 0; d < a->nd; d++) { p->lo[d] = 1; p->hi[d] = p->ld[d] = a->dims[d]; p->skip[d] = 1; } p_count(a, p, 0); }
/* store the whole model from rank 0 (all ranks call) / compare the whole array with the model on rank r */
static void sg_store(Integer g, model *m) {
  const adesc *a = m->a; S(pnga_sync)();
  if (sim_me == 0) { patch p; long k; int sz = sg_size(a->type); char *b; sg_whole(a, &p); b = malloc(p.span * sz); for (k = 0; k < p.n; k++) enc(b + k * sz, a->type, m->v[k]); S(pnga_put)(g, p.lo, p.hi, b, p.ld); free(b); }
  S(pnga_sync)();
}
static void sg_compare(Integer g, model *m, const char *what) {
  const adesc *a = m->a; patch p; long k; int sz = sg_size(a->type); char *b; sg_whole(a, &p); b = malloc(p.span * sz); memset(b, 0x5a, p.span * sz);
  S(pnga_get)(g, p.lo, p.hi, b, p.ld);
  for (k = 0; k < p.n; k++) { val x = dec(b + k * sz, a->type); if (!v_eq(x, m->v[k], a->type)) { if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d elem %ld got %g %g want %g %g\n", sim_me, k, x.re, x.im, m->v[k].re, m->v[k].im); ENSURE(0, what); } }
  free(b);
}
/* approximate comparison (results that involve division or roots) */
static int v_close(val a, val b, int t) { double e = (sg_types[t] == C_FLOAT || sg_types[t] == C_SCPL) ? 2e-5 : 1e-11, m = 1 + (a.re < 0 ? -a.re : a.re) + (b.re < 0 ? -b.re : b.re) + (sg_cpl(t) ? (a.im < 0 ? -a.im : a.im) + (b.im < 0 ? -b.im : b.im) : 0);
  double d = a.re - b.re, f = sg_cpl(t) ? a.im - b.im : 0; if (sg_types[t] == C_INT || sg_types[t] == C_LONG) return d == 0; return d <= e * m && -d <= e * m && f <= e * m && -f <= e * m; }
static void sg_compare_close(Integer g, model *m, const char *what) {
  const adesc *a = m->a; patch p; long k; int sz = sg_size(a->type); char *b; sg_whole(a, &p); b = malloc(p.span * sz);
  S(pnga_get)(g, p.lo, p.hi, b, p.ld);
  for (k = 0; k < p.n; k++) { val x = dec(b + k * sz, a->type); if (!v_close(x, m->v[k], a->type) && !(m->alt && v_close(x, m->alt[k], a->type))) { if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d elem %ld got %g %g want %g %g\n", sim_me, k, x.re, x.im, m->v[k].re, m->v[k].im); ENSURE(0, what); } m->v[k] = x; }
  free(b);
}
static int sg_blocked(const adesc *a) { return a->kind >= KBC; }
static long sg_maxd(int nd) { return nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 7 : 4; }
/* a second layout for an array of the same shape and type */
static void sg_draw_like(adesc *b, const adesc *a, int kind) {
  int d, i; adesc t; memset(b, 0, sizeof *b); b->nd = a->nd; b->type = a->type; b->kind = kind; memcpy(b->dims, a->dims, sizeof a->dims);
  if (kind == KCHUNK) for (d = 0; d < b->nd; d++) b->chunk[d] = vs_long("chunk", -1, b->dims[d]);
  if (kind == KIRREG) { int n = 0; long p = 1; for (d = 0; d < b->nd; d++) { long m = sg_np / p; if (m > b->dims[d]) m = b->dims[d]; b->nb[d] = vs_long("nblock", 1, m); p *= b->nb[d];
      for (i = 0; i < b->nb[d]; i++) b->map[n + i] = i == 0 ? 1 : vs_long("map", b->map[n + i - 1] + 1, b->dims[d] - (b->nb[d] - 1 - i)); n += b->nb[d]; } }
  if (kind == KBC || kind == KSL || kind == KTILED) for (d = 0; d < b->nd; d++) b->bd[d] = vs_long("block", 1, b->dims[d]);
  if (kind == KSL || kind == KTILED || kind == KTIRREG) { long p = sg_np; for (d = 0; d < b->nd - 1; d++) { long k = vs_long("pgrid", 1, p); while (p % k) k--; b->pg[d] = k; p /= k; } b->pg[b->nd - 1] = p; }
  if (kind == KTIRREG) { int n = 0; for (d = 0; d < b->nd; d++) { b->nb[d] = vs_long("nblock", 1, b->dims[d] < 5 ? b->dims[d] : 5);
      for (i = 0; i < b->nb[d]; i++) b->map[n + i] = i == 0 ? 1 : vs_long("map", b->map[n + i - 1] + 1, b->dims[d] - (b->nb[d] - 1 - i)); n += b->nb[d]; } }
}
/* a patch of the same shape somewhere else in an array of the same number of dimensions */
static patch p_shift(const adesc *a, const patch *q, unsigned long long *s) { patch p = *q; int d; for (d = 0; d < a->nd; d++) { long c = q->cnt[d]; p.lo[d] = 1 + sg_x(s) % (a->dims[d] - c + 1); p.hi[d] = p.lo[d] + c - 1; } return p; }
static void m_fill(model *m, unsigned long long *s, int mag) { long k; for (k = 0; k < sg_elems(m->a); k++) m->v[k] = v_s(s, mag, m->a->type); }
#endif
