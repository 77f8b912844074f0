/* C18 (bounded): reductions on the real library: dot products, element selection, norms, global operations, broadcast */
#include "sim_ga.h"
#include <math.h>
static adesc A, B; static model M, N; static unsigned long long S0; static int ta_, tb_, n_; static char op_[8];
static val v_zero(void) { val v = { 0, 0 }; return v; }
static double v_abs2(val a, int t) { return a.re * a.re + (sg_cpl(t) ? a.im * a.im : 0); }
static void rank_dot(int me) {
  unsigned long long s = S0; Integer g, h; int i, j, t = A.type; char got[16]; val w, x; long k;
  GA_INIT();
  g = sg_create(&A); h = sg_create(&B); sg_store(g, &M); sg_store(h, &N);
  for (j = 0; j < n_; j++) {
    int same = sg_x(&s) % 5 == 0, whole = sg_x(&s) % 4 == 0; Integer hb = same ? g : h; adesc *b = same ? &A : &B; model *n = same ? &M : &N;
    int shapes = 1; for (i = 0; i < A.nd; i++) if (b->nd != A.nd || A.dims[i] != b->dims[i]) shapes = 0;
    patch p = p_s(&A, &s, 0, 0, 1), q; Integer sa[MAXDIM], sb[MAXDIM]; int tr = sg_x(&s) % 3 == 0 && !sg_blocked(&A) && !sg_blocked(b) && A.nd == 2; 
    if (whole && shapes) { sg_whole(&A, &p); q = p; tr = 0; } else whole = 0;
    if (!whole) { q = p; if (tr) { q.cnt[0] = p.cnt[1]; q.cnt[1] = p.cnt[0]; }
      for (i = 0; i < A.nd; i++) if (q.cnt[i] > b->dims[i]) break; if (i < A.nd) continue;
      for (i = 0; i < A.nd; i++) { q.lo[i] = 1 + sg_x(&s) % (b->dims[i] - q.cnt[i] + 1); q.hi[i] = q.lo[i] + q.cnt[i] - 1; } }
    p_skip1(&p, A.nd); p_skip1(&q, A.nd);
    w = v_zero();
    for (k = 0; k < p.n; k++) { p_elem(&A, &p, k, sa);
      if (tr) { sb[0] = q.lo[0] + sa[1] - p.lo[1]; sb[1] = q.lo[1] + sa[0] - p.lo[0]; } else for (i = 0; i < A.nd; i++) sb[i] = q.lo[i] + sa[i] - p.lo[i];
      w = v_add(w, v_mul(M.v[sg_lin(&A, sa)], n->v[sg_lin(b, sb)], t)); }
    memset(got, 0x5a, sizeof got);
    if (whole && sg_x(&s) % 2) S(pnga_dot)(sg_types[t], g, hb, got);
    else { char ca = "nN"[sg_x(&s) % 2], cb = ca; if (tr) { if (sg_x(&s) % 2) ca = 't'; else cb = 'T'; } else if (A.nd == 2 && sg_x(&s) % 4 == 0 && !sg_blocked(&A) && !sg_blocked(b)) ca = cb = 't';
      S(pnga_dot_patch)(g, &ca, p.lo, p.hi, hb, &cb, q.lo, q.hi, got); }
    x = dec(got, t);
    if (getenv("VS_VERBOSE") && !v_eq(x, w, t)) fprintf(stderr, "rank %d dot got %g %g want %g %g whole %d tr %d\n", me, x.re, x.im, w.re, w.im, whole, tr);
    ENSURE(v_eq(x, w, t), "every process gets the dot product of the two patches");
  }
  S(pnga_sync)();
  sg_compare(g, &M, "a dot product changes no operand"); sg_compare(h, &N, "a dot product changes no operand");
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_dot) {
  int i, nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(5);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd));
  if (kind == KIRREG && vs_long("ghost", 0, 3) == 0) sg_ghosts(&A, 2);
  sg_draw_like(&B, &A, (int)vs_long("bkind", 0, 6));
  if (vs_long("othershape", 0, 2) == 0 && B.kind == KREG) for (i = 0; i < nd; i++) B.dims[i] = vs_long("bdims", 1, sg_maxd(nd));
  M = m_new(&A); N = m_new(&B); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 9); m_fill(&N, &s, 9); }
  n_ = (int)vs_long("n", 1, 4);
  sim_run(sg_np, sg_seed, rank_dot);
  vs_reach("end");
  return 0;
}
static void rank_sel(int me) {
  Integer g, sub[MAXDIM]; int i, j, t = A.type; char got[16]; long k;
  GA_INIT();
  g = sg_create(&A); sg_store(g, &M);
  for (j = 0; j < 2; j++) {
    double best = 0; val x;
    memset(got, 0x5a, sizeof got); for (i = 0; i < A.nd; i++) sub[i] = -1;
    S(pnga_select_elem)(g, j ? "max" : "min", got, sub);
    x = dec(got, t);
    for (k = 0; k < sg_elems(&A); k++) { double y = sg_cpl(t) ? v_abs2(M.v[k], t) : M.v[k].re; if (k == 0 || (j ? y > best : y < best)) best = y; }
    if (getenv("VS_VERBOSE")) { fprintf(stderr, "rank %d %s got %g %g want %g at", me, j ? "max" : "min", x.re, x.im, best); for (i = 0; i < A.nd; i++) fprintf(stderr, " %ld", (long)sub[i]); fprintf(stderr, "\n"); }
    ENSURE((sg_cpl(t) ? v_abs2(x, t) : x.re) == best, "the selected value is the extreme element");
    for (i = 0; i < A.nd; i++) ENSURE(sub[i] >= 1 && sub[i] <= A.dims[i], "the subscript of the selected element is inside the array");
    ENSURE(v_eq(M.v[sg_lin(&A, sub)], x, t), "the selected value is the element at the returned subscript");
  }
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_select) {
  int nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6); long k;
  sg_begin(5);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd));
  if (kind == KREG && vs_long("restricted", 0, 2) == 0) sg_restrict(&A);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, (int)vs_long("mag", 1, 100)); 
    k = vs_long("shift", -200, 200); if (!sg_cpl(A.type)) { long i; for (i = 0; i < sg_elems(&A); i++) M.v[i].re += k; } }
  sim_run(sg_np, sg_seed, rank_sel);
  vs_reach("end");
  return 0;
}
static void rank_norm(int me) {
  Integer g; int t = A.type; double a = -1, b = -1, wa = 0, wb = 0, e = (sg_types[t] == C_FLOAT || sg_types[t] == C_SCPL) ? 1e-5 : 1e-12; long i, r = A.dims[0], c = A.nd == 2 ? A.dims[1] : 1;
  GA_INIT();
  g = sg_create(&A); sg_store(g, &M);
  for (i = 0; i < r * c; i++) { double x = sqrt(v_abs2(M.v[i], t)); wb += x; if (x > wa) wa = x; }
  S(pnga_norm_infinity)(g, &a); S(pnga_norm1)(g, &b);
  if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d norms %g (%g) %g (%g)\n", me, a, wa, b, wb);
  ENSURE(fabs(a - wa) <= e * (1 + wa), "the infinity norm is the largest absolute value");
  ENSURE(fabs(b - wb) <= e * (1 + wb), "the one norm is the sum of the absolute values");
  S(pnga_sync)(); sg_compare(g, &M, "a norm changes nothing"); S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_norm) {
  int nd = (int)vs_case("ndim", 1, 2), kind = (int)vs_case("kind", 0, 6);
  sg_begin(5);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd));
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 9); }
  sim_run(sg_np, sg_seed, rank_norm);
  vs_reach("end");
  return 0;
}
static const char *ops[] = { "+", "*", "max", "min", "absmax", "absmin", "&&", "||" };
static int gop_type, gop_op, root_, grp_; static double V[8][64], W[8][64];
static double comb(int op, double a, double b) { switch (op) { case 0: return a + b; case 1: return a * b; case 2: return a > b ? a : b; case 3: return a < b ? a : b; case 4: a = fabs(a); b = fabs(b); return a > b ? a : b; case 5: a = fabs(a); b = fabs(b); return a < b ? a : b; case 6: return a && b; default: return a || b; } }
static void rank_gop(int me) {
  static const int ty[] = { C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL, C_LONGLONG }; int es = gop_type == 6 ? 8 : sg_size(gop_type), cpl = gop_type == 4 || gop_type == 5, i, r, lo = 0, hi = sg_np, step = 1; char *b; Integer grp = -1; char op[8];
  GA_INIT();
  if (grp_) { int l[8], n = 0; for (i = me % 2; i < sg_np; i += 2) l[n++] = i; if (grp_ == 2) for (i = 0; i < n / 2; i++) { int q = l[i]; l[i] = l[n - 1 - i]; l[n - 1 - i] = q; } { Integer ll[8]; for (i = 0; i < n; i++) ll[i] = l[i]; grp = S(pnga_pgroup_create)(ll, n); } lo = me % 2; step = 2; }
  b = malloc((n_ + 1) * es); memset(b, 0x5a, (n_ + 1) * es);
#define PUT(i, x) do { switch (ty[gop_type]) { case C_INT: ((int*)b)[i] = (int)(x); break; case C_LONG: case C_LONGLONG: ((long*)b)[i] = (long)(x); break; case C_FLOAT: case C_SCPL: ((float*)b)[i] = (x); break; default: ((double*)b)[i] = (x); } } while (0)
#define GET(i) (ty[gop_type] == C_INT ? ((int*)b)[i] : ty[gop_type] == C_LONG || ty[gop_type] == C_LONGLONG ? ((long*)b)[i] : ty[gop_type] == C_FLOAT || ty[gop_type] == C_SCPL ? ((float*)b)[i] : ((double*)b)[i])
  for (i = 0; i < n_ * (1 + cpl); i++) PUT(i, V[me][i]);
  strcpy(op, ops[gop_op]);
  if (grp_) S(pnga_pgroup_gop)(grp, ty[gop_type], b, n_, op); else S(pnga_gop)(ty[gop_type], b, n_, op);
  for (i = 0; i < n_ * (1 + cpl); i++) { double w = V[lo][i]; for (r = lo + step; r < hi; r += step) w = comb(gop_op, w, V[r][i]); if (hi <= lo + step && gop_op >= 4) w = gop_op >= 6 ? !!w : fabs(w);
    if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d gop[%d] %g want %g\n", me, i, (double)GET(i), w);
    ENSURE(GET(i) == w, "every process gets the reduction over all processes"); }
  for (i = 0; i < es; i++) ENSURE(b[n_ * es + i] == 0x5a, "nothing beyond the vector changes");
  /* broadcast */
  { int nb = n_ * es; int rt = root_; Integer np2 = grp_ ? S(pnga_pgroup_nnodes)(grp) : sg_np; rt %= (int)np2; 
    for (i = 0; i < nb; i++) b[i] = (char)(i * 7 + 31 * (grp_ ? S(pnga_pgroup_nodeid)(grp) : me));
    if (grp_) S(pnga_pgroup_brdcst)(grp, 3, b, nb, rt); else S(pnga_brdcst)(3, b, nb, rt);
    for (i = 0; i < nb; i++) ENSURE(b[i] == (char)(i * 7 + 31 * rt), "every process gets the bytes of the originator");
    for (i = 0; i < es; i++) ENSURE(b[n_ * es + i] == 0x5a, "nothing beyond the vector changes"); }
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_gop) {
  int i, r;
  sg_begin(6); gop_type = (int)vs_case("type", 0, 6); gop_op = (int)vs_long("op", 0, gop_type == 2 || gop_type == 3 ? 5 : gop_type >= 4 && gop_type <= 5 ? 0 : 7);
  n_ = (int)vs_long("n", 1, 16); root_ = (int)vs_long("root", 0, sg_np - 1); grp_ = (int)vs_long("group", 0, 2);
  for (r = 0; r < sg_np; r++) for (i = 0; i < 2 * n_; i++) V[r][i] = vs_long("v", gop_op >= 6 ? 0 : -4, gop_op >= 6 ? 1 : 4);
  sim_run(sg_np, sg_seed, rank_gop);
  vs_reach("end");
  return 0;
}
