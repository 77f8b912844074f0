/* C06 (bounded): element lists (scatter, gather, scatter-accumulate, read-and-increment) on the real library */
#include "sim_ga.h"
static adesc A; static model M; static unsigned long long S0; static int nphase, ops[8];
enum { SCAT, GATH, SACC, SCAT2, GATH2, SACC2, RINC };
static long rinc_pos[4]; static char *seen; static long rinc_n;
static void one_op(Integer g, int op, unsigned long long *s, int slice, int nslice) {
  int t = A.type, sz = sg_size(t), nd = A.nd, d; long n = 1 + sg_x(s) % 12, k, j, tot = sg_elems(&A); val al = v_s(s, 2, t); char alb[16];
  int cflag = op <= SACC && sg_x(s) % 2; Integer *sub, *i2, *j2; int **cs; long *lin; char *v, *c;
  if (op >= SCAT2 && op <= SACC2 && nd != 2) op -= 3;
  if (sg_x(s) % 4 == 0) n = 1 + sg_x(s) % tot;
  if (sg_x(s) % 3 == 0) { al.re = 1; al.im = 0; }
  enc(alb, t, al);
  sub = malloc(n * nd * sizeof *sub); cs = malloc(n * sizeof *cs); lin = malloc(n * sizeof *lin); v = malloc(n * sz); i2 = malloc(n * sizeof *i2); j2 = malloc(n * sizeof *j2);
  for (k = 0; k < n; k++) {
    long l = sg_x(s) % tot, x;
    if (op == SCAT || op == SCAT2) { /* distinct elements, and disjoint between ranks */
      l = (l / nslice) * nslice + slice; if (l >= tot) l = slice; if (l >= tot) { n = k; break; }
      for (;;) { for (j = 0; j < k && lin[j] != l; j++) ; if (j == k) break; l = l + nslice; if (l >= tot) l = slice; if (j == k) break; if (k * nslice + slice >= tot) break; }
      for (j = 0; j < k && lin[j] != l; j++) ; if (j < k) { n = k; break; }
    } else if (k && sg_x(s) % 4 == 0) l = lin[k - 1];
    lin[k] = x = l; cs[k] = malloc(nd * sizeof(int));
    for (d = 0; d < nd; d++) { sub[k * nd + d] = x % A.dims[d] + 1; x /= A.dims[d]; cs[k][nd - 1 - d] = (int)sub[k * nd + d] - 1; }
    if (nd == 2) { i2[k] = sub[k * nd]; j2[k] = sub[k * nd + 1]; }
    enc(v + k * sz, t, v_s(s, 7, t));
  }
  c = malloc(n * sz + 1); memcpy(c, v, n * sz);
  { void *sp = cflag ? (void *)cs : (void *)sub;
  switch (op) {
  case SCAT: S(pnga_scatter)(g, v, sp, cflag, n); break;
  case GATH: S(pnga_gather)(g, v, sp, cflag, n); break;
  case SACC: S(pnga_scatter_acc)(g, v, sp, cflag, n, alb); break;
  case SCAT2: S(pnga_scatter2d)(g, v, i2, j2, n); break;
  case GATH2: S(pnga_gather2d)(g, v, i2, j2, n); break;
  case SACC2: S(pnga_scatter_acc2d)(g, v, i2, j2, n, alb); break;
  } }
  for (k = 0; k < n; k++) {
    val *m = &M.v[lin[k]], x = dec((op == GATH || op == GATH2 ? v : c) + k * sz, t);
    if (op == GATH || op == GATH2) ENSURE(v_eq(x, *m, t), "gather returns the listed elements in order");
    else { if (op != SACC2) /* documented: the lists of the two dimensional call may be shuffled */ ENSURE(!memcmp(v + k * sz, c + k * sz, sz), "the values of a scatter are not modified"); if (op == SCAT || op == SCAT2) *m = x; else *m = v_add(*m, v_mul(al, x, t)); }
    for (d = 0; d < nd; d++) ENSURE(sub[k * nd + d] >= 1 && cs[k][nd - 1 - d] == sub[k * nd + d] - 1, "the subscripts are not modified");
    free(cs[k]);
  }
  free(sub); free(cs); free(lin); free(v); free(c); free(i2); free(j2);
}
static void rank(int me) {
  int ph; unsigned long long s = S0 + 0x1234567 * (me + 1); Integer g; int i;
  for (i = 0; i < 4; i++) sg_x(&s);
  GA_INIT();
  g = sg_create(&A);
  sg_store(g, &M);
  for (ph = 0; ph < nphase; ph++) {
    int n = sg_x(&s) % 3, base = ops[ph];
    if (base == SCAT || base == SCAT2) n = 0;
    for (i = 0; i <= n; i++) one_op(g, base, &s, me, (base == SCAT || base == SCAT2) ? sg_np : 1);
    S(pnga_sync)();
    sg_compare(g, &M, "after a synchronisation every rank sees exactly the listed changes");
    S(pnga_sync)();
  }
  GA_TERM();
}
static void draw(int nd, int kind) {
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  if (kind == KREG && !A.ghosts && vs_long("restricted", 0, 2) == 0) sg_restrict(&A);
}
VS_ENTRY(vs_scatter) {
  int i, nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(5);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 7 : 4);
  draw(nd, kind);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 9); }
  nphase = (int)vs_long("phases", 1, 3);
  for (i = 0; i < nphase; i++) ops[i] = (int)vs_long("op", SCAT, SACC2);
  sim_run(sg_np, sg_seed, rank);
  vs_reach("end");
  return 0;
}
/* read-and-increment: concurrent calls return the distinct intermediate values, in any schedule */
static long cnt_[4], inc_; static int each_, npos_; static Integer sub_[4][MAXDIM];
static char got_[4][4096];
static void rank_inc(int me) {
  unsigned long long s = S0 + 77 * (me + 1); Integer g; int i; long last[4] = { -1, -1, -1, -1 };
  for (i = 0; i < 4; i++) sg_x(&s);
  GA_INIT();
  g = sg_create(&A); sg_store(g, &M);
  for (i = 0; i < each_; i++) {
    int q = sg_x(&s) % npos_; long r, b = (long)M.v[sg_lin(&A, sub_[q])].re;
    cnt_[q]++;
    r = S(pnga_read_inc)(g, sub_[q], inc_) - b;
    if (inc_) { ENSURE(r % inc_ == 0, "read-and-increment returns a value the element had"); r /= inc_;
      ENSURE(r >= 0 && r < each_ * sg_np, "read-and-increment returns a value the element had");
      ENSURE(!got_[q][r], "no two read-and-increment calls return the same value"); got_[q][r] = 1;
      ENSURE(r > last[q], "the values one rank sees only move forward"); last[q] = r; }
    else ENSURE(r == 0, "an increment by zero reads the element");
    if (sg_x(&s) % 2) sim_yield();
  }
  S(pnga_sync)();
  if (me == 0) { int q; for (q = 0; q < npos_; q++) M.v[sg_lin(&A, sub_[q])].re += inc_ * cnt_[q]; }
  S(pnga_sync)();
  sg_compare(g, &M, "the sum of all increments is stored, and nothing else changes");
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_readinc) {
  int i, j, d, nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(5);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 1), nd == 1 ? 40 : nd == 2 ? 12 : nd == 3 ? 7 : 4);
  draw(nd, kind);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 9); }
  npos_ = (int)vs_long("positions", 1, 3); each_ = (int)vs_long("each", 1, 8); inc_ = vs_long("inc", -3, 5);
  for (i = 0; i < npos_; i++) { for (d = 0; d < nd; d++) sub_[i][d] = vs_long("sub", 1, A.dims[d]); for (j = 0; j < i; j++) REQUIRE(sg_lin(&A, sub_[i]) != sg_lin(&A, sub_[j])); }
  sim_run(sg_np, sg_seed, rank_inc);
  vs_reach("end");
  return 0;
}
