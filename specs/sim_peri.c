/* C08 (bounded): periodic access on the real library */
#include "sim_ga.h"
static adesc A; static model M; static unsigned long long S0; static int nphase, ops[8];
static void one_op(Integer g, int op, unsigned long long *s, int slice, int nslice) {
  int t = A.type, sz = sg_size(t), nd = A.nd, d, i; patch p; long k, span = 1, f = 1, n = 1; val al = v_s(s, 2, t); char alb[16], *b, *c; Integer sub[MAXDIM];
  memset(&p, 0, sizeof p); enc(alb, t, al);
  for (d = 0; d < nd; d++) {
    long D = A.dims[d], len = 1 + sg_x(s) % (op == 1 ? 2 * D : op == 0 ? D : 2 * D), far = (long)(sg_x(s) % 5) - 2;
    p.lo[d] = far * D + 1 + sg_x(s) % D; p.hi[d] = p.lo[d] + len - 1;
    if (op == 0 && d == nd - 1 && nslice > 1) { /* ranks store disjoint slices */ long b0 = D * slice / nslice, e0 = D * (slice + 1) / nslice; if (b0 == e0) return; len = 1 + sg_x(s) % (e0 - b0); p.lo[d] = far * D + 1 + b0 + sg_x(s) % (e0 - b0 - len + 1); p.hi[d] = p.lo[d] + len - 1; }
    p.cnt[d] = len; p.ld[d] = len + (sg_x(s) % 3 == 0 ? sg_x(s) % 3 : 0); n *= len; span += (len - 1) * f; if (d < nd - 1) f *= p.ld[d];
  }
  b = malloc(span * sz); c = malloc(span * sz); memset(b, 0x3c, span * sz);
  if (op != 1) for (k = 0; k < span; k++) enc(b + k * sz, t, v_s(s, 5, t));
  memcpy(c, b, span * sz);
  S(pnga_periodic)(g, p.lo, p.hi, b, p.ld, alb, op == 0 ? PERIODIC_PUT : op == 1 ? PERIODIC_GET : PERIODIC_ACC);
  if (op != 1) ENSURE(!memcmp(b, c, span * sz), "the local buffer of a periodic put or accumulate is unchanged");
  for (k = 0; k < n; k++) {
    long q = k, o = 0, g1 = 1; val *m, x; for (d = 0; d < nd; d++) { long w = q % p.cnt[d]; q /= p.cnt[d]; o += w * g1; if (d < nd - 1) g1 *= p.ld[d]; w = (p.lo[d] + w - 1) % A.dims[d]; if (w < 0) w += A.dims[d]; sub[d] = w + 1; }
    m = &M.v[sg_lin(&A, sub)]; x = dec(b + o * sz, t);
    if (op == 1) { ENSURE(v_eq(x, *m, t), "a periodic get returns the wrapped around elements"); memcpy(b + o * sz, c + o * sz, sz); }
    else *m = op == 0 ? x : v_add(*m, v_mul(al, x, t));
  }
  if (op == 1) ENSURE(!memcmp(b, c, span * sz), "a periodic get writes only the elements of its patch");
  free(b); free(c);
}
static void rank(int me) {
  int ph; unsigned long long s = S0 + 0x1234567 * (me + 1); Integer g; int i;
  for (i = 0; i < 4; i++) sg_x(&s);
  GA_INIT();
  g = sg_create(&A); sg_store(g, &M);
  for (ph = 0; ph < nphase; ph++) {
    one_op(g, ops[ph], &s, me, ops[ph] == 0 ? sg_np : 1);
    S(pnga_sync)();
    sg_compare(g, &M, "after a synchronisation every rank sees exactly the wrapped around changes");
    S(pnga_sync)();
  }
  GA_TERM();
}
VS_ENTRY(vs_periodic) {
  int i, nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(4);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), nd == 1 ? 20 : nd == 2 ? 8 : nd == 3 ? 5 : 3);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 9); }
  nphase = (int)vs_long("phases", 1, 3);
  for (i = 0; i < nphase; i++) ops[i] = (int)vs_long("op", 0, 2);
  sim_run(sg_np, sg_seed, rank);
  vs_reach("end");
  return 0;
}
