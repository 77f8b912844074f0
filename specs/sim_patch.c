/* C03 (bounded): one-sided patch access, executed SPMD on the real library */
#include "sim_ga.h"
static adesc A; static model M; static unsigned long long S0; static int nphase, kinds[8], ops;
enum { PUT, ACC, GET, SPUT, SACC, SGET, NBPUT, NBACC, NBGET, SCAT, SACCE, GATH };

static void one_op(Integer g, int op, unsigned long long *s, int slice, int nslice) {
  int t = A.type, sz = sg_size(t), i; Integer nb = 0;
  int strided = op >= SPUT && op <= SGET;
  patch p = p_s(&A, s, strided, slice, nslice); Integer sub[MAXDIM]; long k; val al = v_s(s, 2, t); char alb[16];
  if (p.n == 0) return;
  if (sg_x(s) % 3 == 0) { al.re = 1; al.im = 0; }
  enc(alb, t, al);
  char *b = malloc(p.span * sz); memset(b, 0x3c, p.span * sz);
  char *c = malloc(p.span * sz);
  if (op != GET && op != SGET && op != NBGET) for (k = 0; k < p.n; k++) { long o = p_elem(&A, &p, k, sub); enc(b + o * sz, t, v_s(s, 5, t)); }
  memcpy(c, b, p.span * sz);
  switch (op) {
  case PUT: S(pnga_put)(g, p.lo, p.hi, b, p.ld); break;
  case ACC: S(pnga_acc)(g, p.lo, p.hi, b, p.ld, alb); break;
  case GET: S(pnga_get)(g, p.lo, p.hi, b, p.ld); break;
  case SPUT: S(pnga_strided_put)(g, p.lo, p.hi, p.skip, b, p.ld); break;
  case SACC: S(pnga_strided_acc)(g, p.lo, p.hi, p.skip, b, p.ld, alb); break;
  case SGET: S(pnga_strided_get)(g, p.lo, p.hi, p.skip, b, p.ld); break;
  case NBPUT: S(pnga_nbput)(g, p.lo, p.hi, b, p.ld, &nb); sim_yield(); S(pnga_nbwait)(&nb); break;
  case NBACC: S(pnga_nbacc)(g, p.lo, p.hi, b, p.ld, alb, &nb); sim_yield(); S(pnga_nbwait)(&nb); break;
  case NBGET: S(pnga_nbget)(g, p.lo, p.hi, b, p.ld, &nb); sim_yield(); S(pnga_nbwait)(&nb); break;
  }
  if (op == GET || op == SGET || op == NBGET) {
    for (k = 0; k < p.n; k++) { long o = p_elem(&A, &p, k, sub); ENSURE(v_eq(dec(b + o * sz, t), M.v[sg_lin(&A, sub)], t), "a get returns the elements of its patch"); memcpy(b + o * sz, c + o * sz, sz); }
    ENSURE(!memcmp(b, c, p.span * sz), "a get writes only the elements of its patch");
  } else {
    ENSURE(!memcmp(b, c, p.span * sz), "the local buffer of a put or accumulate is unchanged");
    for (k = 0; k < p.n; k++) { long o = p_elem(&A, &p, k, sub); val x = dec(b + o * sz, t), *m = &M.v[sg_lin(&A, sub)]; *m = (op == PUT || op == SPUT || op == NBPUT) ? x : v_add(*m, v_mul(al, x, t)); }
  }
  for (i = 0; i < p.span * sz; i++) b[i] = 0x77;   /* the buffer belongs to the caller again */
  free(b); free(c);
}
static void rank(int me) {
  int ph; unsigned long long s = S0 + 0x1234567 * (me + 1); Integer g; int i;
  for (i = 0; i < 4; i++) sg_x(&s);
  GA_INIT();
  g = sg_create(&A);
  sg_store(g, &M);
  for (ph = 0; ph < nphase; ph++) {
    int n = sg_x(&s) % 3, base = kinds[ph]; 
    for (i = 0; i <= n; i++) one_op(g, base, &s, me, (base == PUT || base == SPUT || base == NBPUT) ? sg_np : 1);
    S(pnga_sync)();
    sg_compare(g, &M, "after a synchronisation every rank sees exactly the stored elements");
    S(pnga_sync)();
  }
  ENSURE(S(pnga_destroy)(g) == TRUE, "an array is destroyed");
  GA_TERM();
}
static void go(int lo, int hi) {
  int i, nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(4);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 7 : 4);
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  if (kind == KREG && !A.ghosts && vs_long("restricted", 0, 2) == 0) sg_restrict(&A);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; long k; for (k = 0; k < sg_elems(&A); k++) M.v[k] = v_s(&s, 9, A.type); }
  nphase = (int)vs_long("phases", 1, 3);
  for (i = 0; i < nphase; i++) kinds[i] = (int)vs_long("op", lo, hi);
  sim_run(sg_np, sg_seed, rank);
  vs_reach("end");
}
VS_ENTRY(vs_patch) { go(PUT, GET); return 0; }
VS_ENTRY(vs_strided) { go(SPUT, SGET); return 0; }
VS_ENTRY(vs_nonblocking) { go(NBPUT, NBGET); return 0; }
