/* C19 (bounded): matrix operations on the real library: diagonals, row and column scaling, transpose, symmetrize, median, matrix multiplication */
#include "sim_ga.h"
#include <math.h>
static adesc A, B, C, D; static model M, N, R, Q; static unsigned long long S0; static int n_, patch_, how_;
static val v_zero(void) { val v = { 0, 0 }; return v; }
static int is1(const adesc *a) { return a->nd == 1; } 
#define AT(m, i, j) ((m).v[(i) + (j) * (m).a->dims[0]])
static void rank_mat(int me) {
  Integer g, h, w; int i, j, q, t = A.type; long r = A.dims[0], c = A.dims[1], d = r < c ? r : c; unsigned long long s = S0; char sc[16];
  model P = m_new(&A), V = m_new(&B), W = m_new(&D); val x;
  memcpy(P.v, M.v, r * c * sizeof(val));
  GA_INIT();
  g = sg_create(&A); h = sg_create(&C); sg_store(g, &P);
  B.dims[0] = d; 
  for (q = 0; q < n_; q++) { int op = (int)(sg_x(&s) % 9);
    adesc v = B; model vm; Integer gv; v.dims[0] = op == 5 ? r : op == 6 ? c : d; if (v.dims[0] != B.dims[0] || v.kind == KIRREG) { if (v.kind != KBC) v.kind = KREG; else v.bd[0] = 1 + v.bd[0] % v.dims[0]; if (v.kind == KSL || v.kind == KTILED) v.kind = KREG; }
    vm = m_new(&v); m_fill(&vm, &s, 4);
    gv = sg_create(&v); sg_store(gv, &vm);
    switch (op) {
    case 0: S(pnga_get_diag)(g, gv); for (i = 0; i < d; i++) vm.v[i] = AT(P, i, i); break;
    case 1: S(pnga_add_diagonal)(g, gv); for (i = 0; i < d; i++) AT(P, i, i) = v_add(AT(P, i, i), vm.v[i]); break;
    case 2: S(pnga_set_diagonal)(g, gv); for (i = 0; i < d; i++) AT(P, i, i) = vm.v[i]; break;
    case 3: x = v_s(&s, 5, t); enc(sc, t, x); S(pnga_shift_diagonal)(g, sc); for (i = 0; i < d; i++) AT(P, i, i) = v_add(AT(P, i, i), x); break;
    case 4: S(pnga_zero_diagonal)(g); for (i = 0; i < d; i++) AT(P, i, i) = v_zero(); break;
    case 5: S(pnga_scale_rows)(g, gv); for (i = 0; i < r; i++) for (j = 0; j < c; j++) AT(P, i, j) = v_mul(AT(P, i, j), vm.v[i], t); break;
    case 6: S(pnga_scale_cols)(g, gv); for (i = 0; i < r; i++) for (j = 0; j < c; j++) AT(P, i, j) = v_mul(AT(P, i, j), vm.v[j], t); break;
    case 7: S(pnga_transpose)(g, h); { model T = m_new(&C); for (i = 0; i < r; i++) for (j = 0; j < c; j++) AT(T, j, i) = AT(P, i, j); S(pnga_sync)(); sg_compare(h, &T, "the transpose has every element at its mirrored position"); free(T.v); } break;
    case 8: if (r != c || sg_types[t] != C_DBL) break; S(pnga_symmetrize)(g);
      for (i = 0; i < r; i++) for (j = 0; j <= i; j++) { val z = v_add(AT(P, i, j), AT(P, j, i)); z.re /= 2; AT(P, i, j) = AT(P, j, i) = z; } break;
    }
    if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d op %d\n", me, op);
    S(pnga_sync)();
    sg_compare(g, &P, "a matrix operation changes exactly the elements it is defined on"); sg_compare(gv, &vm, "the vector operand has its defined value");
    S(pnga_sync)();
    S(pnga_destroy)(gv); free(vm.v);
    for (i = 0; i < r * c; i++) if (fabs(P.v[i].re) > 1e4 || fabs(P.v[i].im) > 1e4) q = n_;
  }
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_matrix) {
  int kind = (int)vs_case("kind", 0, 6);
  sg_begin(5);
  sg_draw(&A, 2, kind, (int)vs_long("type", 0, 5), 12);
  if (vs_long("square", 0, 1)) { if (kind != KIRREG && kind != KTIRREG && (kind < KBC || A.bd[1] <= A.dims[0]) && A.chunk[1] <= A.dims[0]) A.dims[1] = A.dims[0]; if (vs_long("dbl", 0, 1)) A.type = 3; }
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  memset(&B, 0, sizeof B); B.nd = 1; B.dims[0] = A.dims[0] < A.dims[1] ? A.dims[0] : A.dims[1]; B.type = A.type; { adesc b = B; sg_draw_like(&B, &b, (int)vs_long("vkind", 0, 5)); }
  memset(&C, 0, sizeof C); C.nd = 2; C.dims[0] = A.dims[1]; C.dims[1] = A.dims[0]; C.type = A.type; { adesc b = C; sg_draw_like(&C, &b, (int)vs_long("tkind", 0, 6)); }
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40); { unsigned long long s = S0; m_fill(&M, &s, 5); }
  D = B;
  n_ = (int)vs_long("n", 1, 4);
  sim_run(sg_np, sg_seed, rank_mat);
  vs_reach("end");
  return 0;
}

/* C = alpha op(A) op(B) + beta C on two dimensional patches of the arrays */
typedef struct { long o[MAXDIM]; int p, q; } plane; /* origin of a plane patch, its two dimensions */
static int ta_, tb_, al_, be_; static long m_, k_, l_; static plane pa_, pb_, pc_;
static val *pl_at(model *m, const plane *p, long i, long j) { const adesc *a = m->a; long e = 0, s = 1; int d; for (d = 0; d < a->nd; d++) { e += s * (p->o[d] + (d == p->p ? i : 0) + (d == p->q ? j : 0)); s *= a->dims[d]; } return &m->v[e]; }
static void pl_box(const adesc *a, const plane *p, long ei, long ej, Integer *lo, Integer *hi) { int d; for (d = 0; d < a->nd; d++) { lo[d] = p->o[d] + 1; hi[d] = lo[d] + (d == p->p ? ei - 1 : 0) + (d == p->q ? ej - 1 : 0); } }
static void rank_mm(int me) {
  Integer ga, gb, gc, alo[MAXDIM], ahi[MAXDIM], blo[MAXDIM], bhi[MAXDIM], clo[MAXDIM], chi[MAXDIM]; int t = A.type, d; long i, j, k; char al[16], be[16], ca = ta_ ? 't' : 'n', cb = tb_ ? 'T' : 'N'; unsigned long long s = S0; val va = v_s(&s, 3, t), vb = v_s(&s, 3, t); model P = m_new(&C);
  if (al_ == 0) { va.re = 1; va.im = 0; } if (be_ == 0) { vb.re = vb.im = 0; } if (be_ == 1) { vb.re = 1; vb.im = 0; }
  enc(al, t, va); enc(be, t, vb); memcpy(P.v, R.v, sg_elems(&C) * sizeof(val));
  GA_INIT();
  ga = sg_create(&A); gb = sg_create(&B); gc = sg_create(&C); sg_store(ga, &M); sg_store(gb, &N); sg_store(gc, &P);
  for (i = 0; i < m_; i++) for (j = 0; j < l_; j++) { val z = v_zero(), *c = pl_at(&P, &pc_, i, j); for (k = 0; k < k_; k++) z = v_add(z, v_mul(*(ta_ ? pl_at(&M, &pa_, k, i) : pl_at(&M, &pa_, i, k)), *(tb_ ? pl_at(&N, &pb_, j, k) : pl_at(&N, &pb_, k, j)), t)); *c = v_add(v_mul(va, z, t), v_mul(vb, *c, t)); }
  pl_box(&A, &pa_, ta_ ? k_ : m_, ta_ ? m_ : k_, alo, ahi); pl_box(&B, &pb_, tb_ ? l_ : k_, tb_ ? k_ : l_, blo, bhi); pl_box(&C, &pc_, m_, l_, clo, chi);
#define PSWAP(lo, hi, P) do { Integer x = lo[(P).p]; lo[(P).p] = lo[(P).q]; lo[(P).q] = x; x = hi[(P).p]; hi[(P).p] = hi[(P).q]; hi[(P).q] = x; } while (0)
  if (how_ != 3) { if (ta_) PSWAP(alo, ahi, pa_); if (tb_) PSWAP(blo, bhi, pb_); } /* these take the patch after the transposition */
  if (how_ == 0) S(pnga_matmul)(&ca, &cb, al, be, ga, alo[0], ahi[0], alo[1], ahi[1], gb, blo[0], bhi[0], blo[1], bhi[1], gc, clo[0], chi[0], clo[1], chi[1]);
  else if (how_ == 1) S(pnga_matmul_patch)(&ca, &cb, al, be, ga, alo, ahi, gb, blo, bhi, gc, clo, chi);
  else if (how_ == 2) S(pnga_matmul_basic)(&ca, &cb, al, be, ga, alo, ahi, gb, blo, bhi, gc, clo, chi);
  else S(pnga_matmul_patch_alt)(&ca, &cb, al, be, ga, alo, ahi, gb, blo, bhi, gc, clo, chi);
  S(pnga_sync)();
  sg_compare(gc, &P, "the product is the sum of the products of rows and columns"); sg_compare(ga, &M, "the left factor is unchanged"); sg_compare(gb, &N, "the right factor is unchanged");
  S(pnga_sync)();
  GA_TERM();
}
static void mmdim(adesc *a, plane *p, int kind, long r, long c, int t, int nd, int whole) {
  adesc b; int d; memset(&b, 0, sizeof b); b.nd = nd; b.type = t; p->p = (int)vs_long("row", 0, nd - 2); p->q = (int)vs_long("col", p->p + 1, nd - 1);
  for (d = 0; d < nd; d++) { long e = whole ? 0 : vs_long("extra", 0, 4); p->o[d] = vs_long("off", 0, e); b.dims[d] = e + (d == p->p ? r : d == p->q ? c : 1); }
  sg_draw_like(a, &b, kind);
}
VS_ENTRY(vs_matmul) {
  int kind = (int)vs_case("kind", 0, 6), t = (int)vs_long("type", 2, 5), whole = (int)vs_long("whole", 0, 1), ak, bk, lo = 1, na = 2, nb = 2, nc = 2;
  sg_begin(5);
  how_ = (int)vs_case("how", 0, 3);
  ta_ = how_ == 2 ? 0 : (int)vs_long("ta", 0, 1); tb_ = how_ == 2 ? 0 : (int)vs_long("tb", 0, 1); al_ = (int)vs_long("alpha", 0, 1); be_ = (int)vs_long("beta", 0, 2);
  ak = (int)vs_long("akind", 0, 6); bk = (int)vs_long("bkind", 0, 6);
  if (kind >= KBC || ak >= KBC || bk >= KBC) { if ((how_ == 0 && kind >= KBC) || how_ == 1 || how_ == 3) ta_ = tb_ = 0; } /* the general algorithm refuses transposes */
  else if (how_ == 1 || how_ == 3) { na = (int)vs_long("andim", 2, 4); nb = (int)vs_long("bndim", 2, 4); nc = (int)vs_long("cndim", 2, 4); if (na + nb + nc > 6) lo = 2; } /* a vector in a larger array is ambiguous */
  m_ = vs_long("m", lo, 12); k_ = vs_long("k", lo, 12); l_ = vs_long("l", lo, 12);
  mmdim(&A, &pa_, ak, ta_ ? k_ : m_, ta_ ? m_ : k_, t, na, whole);
  mmdim(&B, &pb_, bk, tb_ ? l_ : k_, tb_ ? k_ : l_, t, nb, whole);
  mmdim(&C, &pc_, kind, m_, l_, t, nc, whole);
  M = m_new(&A); N = m_new(&B); R = m_new(&C); S0 = vs_long("stream", 1, 1L << 40); { unsigned long long s = S0; m_fill(&M, &s, 4); m_fill(&N, &s, 4); m_fill(&R, &s, 4); }
  sim_run(sg_np, sg_seed, rank_mm);
  vs_reach("end");
  return 0;
}
/* median of three arrays */
static void rank_med(int me) {
  Integer ga, gb, gc, gd; int t = A.type; long k; model P = m_new(&A); unsigned long long s = S0;
  GA_INIT();
  ga = sg_create(&A); gb = sg_create(&B); gc = sg_create(&C); gd = sg_create(&D); sg_store(ga, &M); sg_store(gb, &N); sg_store(gc, &R); sg_store(gd, &Q);
  { patch p; Integer sub[MAXDIM]; if (patch_) { p = p_s(&A, &s, 0, 0, 1); p_skip1(&p, A.nd); } else sg_whole(&A, &p);
    memcpy(P.v, Q.v, sg_elems(&A) * sizeof(val));
    for (k = 0; k < p.n; k++) { long i; val x[3]; int a, b, c; p_elem(&A, &p, k, sub); i = sg_lin(&A, sub); x[0] = M.v[i]; x[1] = N.v[i]; x[2] = R.v[i];
#define LE(i, j) (v_key(x[i], t) <= v_key(x[j], t))
#define v_key(v, t) (sg_cpl(t) ? (v).re * (v).re + (v).im * (v).im : (v).re)
      for (a = 0; a < 3; a++) { b = (a + 1) % 3; c = (a + 2) % 3; if ((LE(b, a) && LE(a, c)) || (LE(c, a) && LE(a, b))) P.v[i] = x[a]; } }
    if (patch_) { patch q = p, r = p, u = p; S(pnga_median_patch)(ga, p.lo, p.hi, gb, q.lo, q.hi, gc, r.lo, r.hi, gd, u.lo, u.hi); } else S(pnga_median)(ga, gb, gc, gd); }
  S(pnga_sync)();
  sg_compare(gd, &P, "each element of the result is the median of its operands"); sg_compare(ga, &M, "the operands are unchanged"); sg_compare(gb, &N, "the operands are unchanged"); sg_compare(gc, &R, "the operands are unchanged");
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_median) {
  int nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6); 
  sg_begin(5);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 3), sg_maxd(nd));
  sg_draw_like(&B, &A, (int)vs_long("bkind", 0, 6)); sg_draw_like(&C, &A, (int)vs_long("ckind", 0, 6)); 
  if (vs_long("samelayout", 0, 1)) { B = A; C = A; D = A; } else sg_draw_like(&D, &A, (int)vs_long("dkind", 0, 6)); 
  patch_ = (int)vs_long("patch", 0, 1);
  M = m_new(&A); N = m_new(&A); R = m_new(&A); Q = m_new(&A); S0 = vs_long("stream", 1, 1L << 40); { unsigned long long s = S0; m_fill(&M, &s, 5); m_fill(&N, &s, 5); m_fill(&R, &s, 5); m_fill(&Q, &s, 5); }
  N.a = &B; R.a = &C; Q.a = &D;
  sim_run(sg_np, sg_seed, rank_med);
  vs_reach("end");
  return 0;
}
