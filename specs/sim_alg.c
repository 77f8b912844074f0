/* C07 (bounded): whole array and patch operations, executed SPMD on the real library */
#include "sim_ga.h"
#include <math.h>
static adesc A[3]; static model M[3]; static unsigned long long S0; static int nphase, ops[8];
enum { ZERO, FILL, SCALE, ADDC, ABS, RECIP, ZEROP, FILLP, SCALEP, ADDCP, ABSP, RECIPP, COPY, COPYP, ADD, ADDP, MUL, MULP, DIV, DIVP, MAX_, MAXP, MIN_, MINP, MEDIAN, MEDIANP, NOPS };
static int isint_(int t) { return sg_types[t] == C_INT || sg_types[t] == C_LONG; }
static val v_div(val a, val b, int t) { val r = { 0, 0 }; if (isint_(t)) r.re = (double)((long)a.re / (long)b.re); else if (!sg_cpl(t)) r.re = a.re / b.re;
  else { double n = b.re * b.re + b.im * b.im; r.re = (a.re * b.re + a.im * b.im) / n; r.im = (a.im * b.re - a.re * b.im) / n; } return r; }
static double v_n2(val a) { return a.re * a.re + a.im * a.im; }
static val v_max(val a, val b, int t, int mx) { if (!sg_cpl(t)) return (mx ? a.re > b.re : a.re < b.re) ? a : b; return (mx ? v_n2(a) > v_n2(b) : v_n2(a) < v_n2(b)) ? a : b; }
static val med(val a, val b, val c) { val r = a; if ((b.re >= a.re && b.re <= c.re) || (b.re <= a.re && b.re >= c.re)) r = b; else if ((c.re >= a.re && c.re <= b.re) || (c.re <= a.re && c.re >= b.re)) r = c; return r; }
/* the model lives in shared memory of the simulation: only the first rank to reach a phase updates it */
static int done_;
static void model_op(int op, patch *p, patch *q, patch *r, val al, val be) {
  long k; Integer s1[MAXDIM], s2[MAXDIM], s3[MAXDIM]; int t = A[0].type; val one = { 1, 0 };
  val *tmp = malloc((p->n + 1) * sizeof *tmp), *alt = malloc((p->n + 1) * sizeof *alt);
  for (k = 0; k < p->n; k++) {
    p_elem(&A[0], p, k, s1); p_elem(&A[1], q, k, s2); p_elem(&A[2], r, k, s3);
    val *a = &M[0].v[sg_lin(&A[0], s1)], *b = &M[1].v[sg_lin(&A[1], s2)], *c = &M[2].v[sg_lin(&A[2], s3)], z = { 0, 0 }, o = z;
    switch (op) {
    case ZERO: case ZEROP: o = z; break;
    case FILL: case FILLP: o = al; break;
    case SCALE: case SCALEP: o = v_mul(al, *a, t); break;
    case ADDC: case ADDCP: o = v_add(*a, al); break;
    case ABS: case ABSP: o.re = sg_cpl(t) ? sqrt(v_n2(*a)) : fabs(a->re); break;
    case RECIP: case RECIPP: o = v_div(one, *a, t); break;
    case COPY: case COPYP: o = *a; break;
    case ADD: case ADDP: o = v_add(v_mul(al, *a, t), v_mul(be, *b, t)); break;
    case MUL: case MULP: o = v_mul(*a, *b, t); break;
    case DIV: case DIVP: o = v_div(*a, *b, t); break;
    case MAX_: case MAXP: o = v_max(*a, *b, t, 1); break;
    case MIN_: case MINP: o = v_max(*a, *b, t, 0); break;
    }
    tmp[k] = alt[k] = o;
    if ((op == MAX_ || op == MAXP || op == MIN_ || op == MINP) && sg_cpl(t) && fabs(v_n2(*a) - v_n2(*b)) < 1e-4 * (1 + v_n2(*a))) { tmp[k] = *a; alt[k] = *b; }
  }
  for (k = 0; k < 3; k++) { if (!M[k].alt) M[k].alt = malloc(sg_elems(&A[k]) * sizeof(val)); memcpy(M[k].alt, M[k].v, sg_elems(&A[k]) * sizeof(val)); }
  for (k = 0; k < p->n; k++) {
    p_elem(&A[0], p, k, s1); p_elem(&A[1], q, k, s2); p_elem(&A[2], r, k, s3);
    if (op < COPY) M[0].v[sg_lin(&A[0], s1)] = tmp[k];
    else if (op < ADD) M[1].v[sg_lin(&A[1], s2)] = tmp[k];
    else { M[2].v[sg_lin(&A[2], s3)] = tmp[k]; M[2].alt[sg_lin(&A[2], s3)] = alt[k]; }
  }
  free(tmp); free(alt);
}
static int nz_need(int op) { return op == RECIP || op == RECIPP || op == DIV || op == DIVP; }
static void prep(model *m, unsigned long long s) { long k; for (k = 0; k < sg_elems(m->a); k++) { static const double w[] = { 1, -1, 2, -2, 4, 1, -4, 8 }; m->v[k].re = w[sg_x(&s) % 8]; m->v[k].im = sg_cpl(m->a->type) ? w[sg_x(&s) % 8] : 0; } }
static int samecnt(int al) { return al; }
static void rank(int me) {
  int ph, i, t = A[0].type; Integer g[3]; unsigned long long s = S0; char ab[16], bb[16];
  GA_INIT();
  for (i = 0; i < 3; i++) { g[i] = sg_create(&A[i]); sg_store(g[i], &M[i]); }
  for (ph = 0; ph < nphase; ph++) {
    int op = ops[ph]; patch p, q, r; val al = v_s(&s, 3, t), be = v_s(&s, 3, t); int whole = op <= RECIP || (op >= COPY && (op - COPY) % 2 == 0), alias = (int)(sg_x(&s) % 4); Integer a_, b_, c_;
    if (sg_cpl(t) && (op == MEDIAN || op == MEDIANP)) op = COPYP;
    p = p_s(&A[0], &s, 0, 0, 1); q = p_shift(&A[1], &p, &s); r = p_shift(&A[2], &p, &s);
    if (alias == 3) q = r = p;
    if (whole) { sg_whole(&A[0], &p); sg_whole(&A[1], &q); sg_whole(&A[2], &r); }
    enc(ab, t, al); enc(bb, t, be);
    if (nz_need(op)) { int w = op >= DIV; unsigned long long s2 = s; if (sim_me == 0) prep(&M[w], s2); S(pnga_sync)(); sg_store(g[w], &M[w]); }
    a_ = g[0]; b_ = g[1]; c_ = g[2];
    switch (op) {
    case ZERO: S(pnga_zero)(a_); break;
    case FILL: S(pnga_fill)(a_, ab); break;
    case SCALE: S(pnga_scale)(a_, ab); break;
    case ADDC: S(pnga_add_constant)(a_, ab); break;
    case ABS: S(pnga_abs_value)(a_); break;
    case RECIP: S(pnga_recip)(a_); break;
    case ZEROP: S(pnga_zero_patch)(a_, p.lo, p.hi); break;
    case FILLP: S(pnga_fill_patch)(a_, p.lo, p.hi, ab); break;
    case SCALEP: S(pnga_scale_patch)(a_, p.lo, p.hi, ab); break;
    case ADDCP: S(pnga_add_constant_patch)(a_, p.lo, p.hi, ab); break;
    case ABSP: S(pnga_abs_value_patch)(a_, p.lo, p.hi); break;
    case RECIPP: S(pnga_recip_patch)(a_, p.lo, p.hi); break;
    case COPY: S(pnga_copy)(a_, b_); break;
    case COPYP: S(pnga_copy_patch)("n", a_, p.lo, p.hi, b_, q.lo, q.hi); break;
    case ADD: S(pnga_add)(ab, a_, bb, b_, c_); break;
    case ADDP: S(pnga_add_patch)(ab, a_, p.lo, p.hi, bb, b_, q.lo, q.hi, c_, r.lo, r.hi); break;
    case MUL: S(pnga_elem_multiply)(a_, b_, c_); break;
    case MULP: S(pnga_elem_multiply_patch)(a_, p.lo, p.hi, b_, q.lo, q.hi, c_, r.lo, r.hi); break;
    case DIV: S(pnga_elem_divide)(a_, b_, c_); break;
    case DIVP: S(pnga_elem_divide_patch)(a_, p.lo, p.hi, b_, q.lo, q.hi, c_, r.lo, r.hi); break;
    case MAX_: S(pnga_elem_maximum)(a_, b_, c_); break;
    case MAXP: S(pnga_elem_maximum_patch)(a_, p.lo, p.hi, b_, q.lo, q.hi, c_, r.lo, r.hi); break;
    case MIN_: S(pnga_elem_minimum)(a_, b_, c_); break;
    case MINP: S(pnga_elem_minimum_patch)(a_, p.lo, p.hi, b_, q.lo, q.hi, c_, r.lo, r.hi); break;
    }
    S(pnga_sync)();
    S(pnga_sync)();
    if (sim_me == 0) model_op(op, &p, &q, &r, al, be);
    S(pnga_sync)();
    for (i = 0; i < 3; i++) sg_compare_close(g[i], &M[i], op < COPY ? "an in-place operation transforms exactly the elements of its patch" : op < ADD ? "a copy makes the destination patch equal to the source and changes nothing else" : "an elementwise operation stores its result in exactly the destination patch");
    S(pnga_sync)();
  }
  for (i = 0; i < 3; i++) ENSURE(S(pnga_destroy)(g[i]) == TRUE, "an array is destroyed");
  ENSURE(S(pnga_verify_handle)(g[0]) == FALSE, "a destroyed handle is no longer valid");
  GA_TERM();
}
static void go(int lo, int hi) {
  int i, nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(4);
  sg_draw(&A[0], nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd));
  for (i = 1; i < 3; i++) { int like = (int)vs_long("like", 0, 2); if (like) A[i] = A[0]; else sg_draw_like(&A[i], &A[0], (int)vs_long("kind2", 0, 6)); }
  S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; for (i = 0; i < 3; i++) { M[i] = m_new(&A[i]); m_fill(&M[i], &s, 6); } }
  nphase = (int)vs_long("phases", 1, 2);
  for (i = 0; i < nphase; i++) { ops[i] = (int)vs_long("op", lo, hi); if (ops[i] == MEDIAN || ops[i] == MEDIANP) ops[i] = COPYP; }
  sim_run(sg_np, sg_seed, rank);
  vs_reach("end");
}
VS_ENTRY(vs_inplace) { go(ZERO, RECIPP); return 0; }
VS_ENTRY(vs_copy) { go(COPY, COPYP); return 0; }
VS_ENTRY(vs_elem) { go(ADD, MINP); return 0; }
/* copies that change the shape or transpose (regular distributions) */
static adesc B0; static patch PA, PB; static int tr_;
static void rank_shape(int me) {
  Integer a, b; long k; Integer s1[MAXDIM], s2[MAXDIM]; char tr = tr_ ? 't' : 'n'; int d;
  GA_INIT();
  a = sg_create(&A[0]); b = sg_create(&B0);
  sg_store(a, &M[0]); sg_store(b, &M[1]);
  S(pnga_copy_patch)(&tr, a, PA.lo, PA.hi, b, PB.lo, PB.hi);
  S(pnga_sync)();
  if (sim_me == 0) for (k = 0; k < PA.n; k++) {
    long idx = 0, f = 1; p_elem(&A[0], &PA, k, s1);
    if (tr_) { for (d = A[0].nd - 1; d >= 0; d--) { idx += (s1[d] - PA.lo[d]) * f; f *= PA.cnt[d]; } } else idx = k;
    for (d = 0; d < B0.nd; d++) { s2[d] = PB.lo[d] + idx % PB.cnt[d]; idx /= PB.cnt[d]; }
    M[1].v[sg_lin(&B0, s2)] = M[0].v[sg_lin(&A[0], s1)];
  }
  S(pnga_sync)();
  sg_compare(a, &M[0], "the source of a copy is unchanged");
  sg_compare(b, &M[1], "a reshaping or transposing copy moves each element to its place");
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_copyshape) {
  int nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 2), nd2, d; long n, tot = 1; unsigned long long s;
  sg_begin(4);
  sg_draw(&A[0], nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd) * 2 / 3 + 1);
  s = vs_long("stream", 1, 1L << 40); tr_ = (int)vs_long("transpose", 0, 1);
  PA = p_s(&A[0], &s, 0, 0, 1); n = PA.n;
  memset(&B0, 0, sizeof B0); memset(&PB, 0, sizeof PB);
  B0.nd = nd2 = (int)vs_long("ndim2", 1, 3); B0.type = A[0].type; B0.kind = KREG;
  for (d = 0; d < nd2; d++) { long c = n; if (d < nd2 - 1) { c = vs_long("count2", 1, n); while (n % c) c--; } n /= c; PB.cnt[d] = c; PB.lo[d] = vs_long("lo2", 1, 4); PB.hi[d] = PB.lo[d] + c - 1; PB.skip[d] = 1; B0.dims[d] = PB.hi[d] + vs_long("more2", 0, 3); tot *= B0.dims[d]; }
  REQUIRE(tot < 20000);
  PB.n = PA.n;
  M[0] = m_new(&A[0]); M[1] = m_new(&B0); m_fill(&M[0], &s, 9); m_fill(&M[1], &s, 9);
  sim_run(sg_np, sg_seed, rank_shape);
  vs_reach("end");
  return 0;
}
