/* process groups: handle tables, rank translation, default group, communication and arrays inside a group.
   Every rank keeps its own model: the groups it holds a handle of, each with its members in order. */
#include "sim_ga.h"
#define MAXG 24
typedef struct { int n, m[8], alive; Integer h; } grp_t; /* members as absolute ids, ascending in the numbering of the parent */
static grp_t G[8][MAXG]; static int steps_; static unsigned long long gs[8];
static int g_find(const grp_t *g, int p) { int i; for (i = 0; i < g->n; i++) if (g->m[i] == p) return i; return -1; }
static void g_check(int me, int k) { /* handle against model */
  grp_t *g = &G[me][k]; int i;
  ENSURE(S(pnga_pgroup_nnodes)(g->h) == g->n, "a process group has the members it was created with (count)");
  ENSURE(S(pnga_pgroup_nodeid)(g->h) == g_find(g, me), "a process has its position in the member list as its group rank, or none");
  if (g_find(g, me) >= 0 || k == 0) for (i = 0; i < g->n; i++) ENSURE(S(pnga_pgroup_absolute_id)(g->h, i) == g->m[i], "a group rank stands for the listed process");
}
static void g_tables(int me, int k) { int i; for (i = 1; i <= k; i++) if (G[me][i].alive) g_check(me, i); g_check(me, 0); }
/* numbers as seen inside group k: every member calls */
static void g_comm(int me, int k) {
  grp_t *g = &G[me][k]; long v[3], w[3] = {0, 0, 0}; int i, rt = (int)(sg_x(&gs[me]) % g->n), r = g_find(g, me); char op[4];
  for (i = 0; i < 3; i++) v[i] = (long)(me + 1) * (i + 2);
  for (i = 0; i < g->n; i++) { int j; for (j = 0; j < 3; j++) w[j] += (long)(g->m[i] + 1) * (j + 2); }
  strcpy(op, "+"); S(pnga_pgroup_gop)(g->h, C_LONG, v, 3, op);
  for (i = 0; i < 3; i++) ENSURE(v[i] == w[i], "a reduction on a group combines the contributions of exactly its members");
  for (i = 0; i < 3; i++) v[i] = r * 10 + i;
  S(pnga_pgroup_brdcst)(g->h, 5, v, sizeof v, rt);
  for (i = 0; i < 3; i++) ENSURE(v[i] == rt * 10 + i, "a broadcast on a group delivers the data of the originator's group rank");
  S(pnga_pgroup_sync)(g->h);
}
static void g_enter(int me, int k) { grp_t *g = &G[me][k]; S(pnga_pgroup_set_default)(g->h); ENSURE(S(pnga_pgroup_get_default)() == g->h, "the default group is the one that was set");
  ENSURE(S(pnga_nnodes)() == g->n && S(pnga_nodeid)() == g_find(g, me), "process count and number refer to the default group"); }
/* an array on group k; way: 0 by set_pgroup, 1 by default group; every member calls */
static void g_array(int me, int k, int way) {
  grp_t *g = &G[me][k]; unsigned long long *s = &gs[me]; adesc a; model m; Integer ga, gb, lo[MAXDIM], hi[MAXDIM], sub[MAXDIM]; int d, i, save = sg_np; long e, el, owned = 0; val *v; patch p; char *b; int sz, r = g_find(g, me);
  memset(&a, 0, sizeof a); a.nd = 1 + (int)(sg_x(s) % 3); a.type = (int)(sg_x(s) % 6); a.kind = KREG; for (d = 0; d < a.nd; d++) a.dims[d] = 1 + sg_x(s) % sg_maxd(a.nd);
  if (sg_x(s) % 3 == 0) { a.kind = KIRREG; int n = 0; long q = 1; for (d = 0; d < a.nd; d++) { long mx = g->n / q; if (mx > a.dims[d]) mx = a.dims[d]; a.nb[d] = 1 + sg_x(s) % mx; q *= a.nb[d];
      for (i = 0; i < a.nb[d]; i++) { long from = i ? a.map[n + i - 1] + 1 : 1, to = a.dims[d] - (a.nb[d] - 1 - i); a.map[n + i] = i == 0 ? 1 : from + (long)(sg_x(s) % (to - from + 1)); } n += a.nb[d]; } }
  sz = sg_size(a.type); el = sg_elems(&a);
  if (way) { S(pnga_pgroup_set_default)(g->h); ga = sg_create_g(&a, -1); S(pnga_pgroup_set_default)(-1); } else ga = sg_create_g(&a, g->h);
  ENSURE(S(pnga_get_pgroup)(ga) == g->h, "an array belongs to the group it was created on");
  ENSURE(S(pnga_get_pgroup_size)(S(pnga_get_pgroup)(ga)) == g->n, "the group of an array has its size");
  /* blocks: group rank r owns what locate says */
  for (i = 0; i < g->n; i++) { S(pnga_distribution)(ga, i, lo, hi); long c = 1; for (d = 0; d < a.nd; d++) c *= hi[d] >= lo[d] ? hi[d] - lo[d] + 1 : 0; owned += c; }
  ENSURE(owned == el, "the blocks of the group's processes cover the array");
  sg_whole(&a, &p);
  for (e = 0; e < el; e++) { Integer pr; p_elem(&a, &p, e, sub); ENSURE(S(pnga_locate)(ga, sub, &pr) == TRUE && pr >= 0 && pr < g->n, "an owner is a rank of the group");
    S(pnga_distribution)(ga, pr, lo, hi); for (d = 0; d < a.nd; d++) ENSURE(lo[d] <= sub[d] && sub[d] <= hi[d], "the owner's block contains the element"); }
  m = m_new(&a); v = m.v; b = malloc(el * sz + 16);
  { unsigned long long t = sg_x(s) * 2 + 1; for (e = 0; e < el; e++) v[e] = v_s(&t, 50, a.type); }
  if (r == (int)(sg_x(s) % g->n)) { for (e = 0; e < el; e++) enc(b + e * sz, a.type, v[e]); S(pnga_put)(ga, p.lo, p.hi, b, p.ld); }
  S(pnga_pgroup_sync)(g->h); sg_compare(ga, &m, "a process of the group reads what another one of the group wrote");
  /* local block of the own group rank */
  S(pnga_distribution)(ga, r, lo, hi);
  for (d = 0; d < a.nd && lo[d] <= hi[d]; d++) ;
  if (d == a.nd && lo[0] > 0) { char *q; Integer ld[MAXDIM]; S(pnga_access_ptr)(ga, lo, hi, &q, ld); memcpy(sub, lo, sizeof sub);
    for (;;) { long o = 0, f = 1; for (d = 0; d < a.nd; d++) { o += (sub[d] - lo[d]) * f; f *= d < a.nd - 1 ? ld[d] : 1; } ENSURE(v_eq(dec(q + o * sz, a.type), v[sg_lin(&a, sub)], a.type), "a process finds its own block in its memory");
      for (d = 0; d < a.nd && ++sub[d] > hi[d]; d++) sub[d] = lo[d]; if (d == a.nd) break; }
    S(pnga_release)(ga, lo, hi); }
  S(pnga_pgroup_sync)(g->h);
  /* everybody adds */
  { val one = {1, 0}; char al[16]; enc(al, a.type, one); for (e = 0; e < el; e++) enc(b + e * sz, a.type, one); S(pnga_acc)(ga, p.lo, p.hi, b, p.ld, al); S(pnga_pgroup_sync)(g->h); for (e = 0; e < el; e++) v[e].re += g->n; }
  sg_compare(ga, &m, "every process of the group contributes once"); S(pnga_pgroup_sync)(g->h);
  /* strided transfers by one process of the group */
  { Integer skip[MAXDIM], cnt[MAXDIM], sld[MAXDIM]; long n = 1, q; int who = (int)(sg_x(s) % g->n); for (d = 0; d < a.nd; d++) { skip[d] = 1 + (long)(sg_x(s) % 3); cnt[d] = (p.hi[d] - p.lo[d]) / skip[d] + 1; n *= cnt[d]; sld[d] = cnt[d]; }
    for (q = 0; q < n; q++) { long t = q; val x; for (d = 0; d < a.nd; d++) { sub[d] = p.lo[d] + t % cnt[d] * skip[d]; t /= cnt[d]; } x.re = 7 + q % 5; x.im = 0; v[sg_lin(&a, sub)] = x; enc(b + q * sz, a.type, x); }
    if (r == who) S(pnga_strided_put)(ga, p.lo, p.hi, skip, b, sld);
    S(pnga_pgroup_sync)(g->h); sg_compare(ga, &m, "a strided put of a process of the group reaches the strided elements");
    memset(b, 0, n * sz); S(pnga_strided_get)(ga, p.lo, p.hi, skip, b, sld);
    for (q = 0; q < n; q++) { val x; x.re = 7 + q % 5; x.im = 0; ENSURE(v_eq(dec(b + q * sz, a.type), x, a.type), "a strided get inside a group reads the strided elements"); }
    S(pnga_pgroup_sync)(g->h);
    { val one = {1, 0}; char al[16]; enc(al, a.type, one); for (q = 0; q < n; q++) { long t = q; for (d = 0; d < a.nd; d++) { sub[d] = p.lo[d] + t % cnt[d] * skip[d]; t /= cnt[d]; } enc(b + q * sz, a.type, one); v[sg_lin(&a, sub)].re += g->n; }
      S(pnga_strided_acc)(ga, p.lo, p.hi, skip, b, sld, al); S(pnga_pgroup_sync)(g->h); sg_compare(ga, &m, "every process of the group contributes once to a strided accumulate"); S(pnga_pgroup_sync)(g->h); } }
  { char nm[8] = "dup"; ENSURE(S(pnga_duplicate)(ga, &gb, nm) == TRUE, "an array of a group can be duplicated"); if (sg_nh[sim_me] < 256) sg_h[sim_me][sg_nh[sim_me]++] = gb; }
  ENSURE(S(pnga_get_pgroup)(gb) == g->h, "a duplicate belongs to the same group");
  S(pnga_copy)(ga, gb); { model m2 = m_new(&a); memcpy(m2.v, v, el * sizeof *v); sg_compare(gb, &m2, "copying works inside a group"); S(pnga_pgroup_sync)(g->h);
    { val c; char al[16]; c.re = 3; c.im = sg_cpl(a.type) ? -2 : 0; enc(al, a.type, c); S(pnga_fill)(gb, al); for (e = 0; e < el; e++) m2.v[e] = c; S(pnga_pgroup_sync)(g->h); sg_compare(gb, &m2, "filling works inside a group"); }
    S(pnga_pgroup_sync)(g->h); S(pnga_zero)(gb); for (e = 0; e < el; e++) m2.v[e].re = m2.v[e].im = 0; S(pnga_pgroup_sync)(g->h); sg_compare(gb, &m2, "zeroing works inside a group"); S(pnga_pgroup_sync)(g->h);
    free(m2.v); }
  ENSURE(S(pnga_destroy)(gb) == TRUE && S(pnga_destroy)(ga) == TRUE, "arrays of a group are destroyed");
  for (i = 0; i < sg_nh[sim_me]; i++) if (sg_h[sim_me][i] == ga || sg_h[sim_me][i] == gb) sg_h[sim_me][i--] = sg_h[sim_me][--sg_nh[sim_me]];
  free(m.v); free(b); (void)save;
}
static void g_destroy(int me, int k) { ENSURE(S(pnga_pgroup_destroy)(G[me][k].h) == TRUE, "destroying a group succeeds"); G[me][k].alive = 0;
  if (sg_x(&gs[me]) % 2) ENSURE(S(pnga_pgroup_destroy)(G[me][k].h) == FALSE, "destroying a group that is gone reports it"); }
static int op_;
static void rank_grp(int me) {
  int ng = 1, st, i, k; unsigned long long c = (unsigned long long)sg_seed * 2654435761u + 1;
  memset(G[me], 0, sizeof G[me]); GA_INIT();
  G[me][0].n = sg_np; for (i = 0; i < sg_np; i++) G[me][0].m[i] = i; G[me][0].h = -1; G[me][0].alive = 1;
  /* the common stream c decides what happens; every rank follows it, only members act */
  static grp_t all[8][MAXG]; grp_t *A = all[me]; memset(A, 0, sizeof all[me]); A[0] = G[me][0];
  for (st = 0; st < steps_ && ng < MAXG - 8; st++) {
    int op = op_ == 9 ? (int)(sg_x(&c) % 7) : st == 0 ? op_ : (int)(sg_x(&c) % 7), P, in; grp_t N[8]; int nn = 0, mine = -1; Integer h = -3, L[8]; unsigned long long r0 = sg_x(&c);
    do P = (int)(sg_x(&c) % ng); while (!A[P].alive);
    in = g_find(&A[P], me) >= 0; gs[me] = r0 * 2 + 1; memset(N, 0, sizeof N);
    if (in && op <= 4) g_enter(me, P);
    switch (op) {
    case 0: { /* a list of ranks of the default group in any order */
      int cnt = 1 + (int)(sg_x(&c) % A[P].n), pick[8]; for (i = 0; i < A[P].n; i++) pick[i] = i; for (i = 0; i < A[P].n; i++) { int j = i + (int)(sg_x(&c) % (A[P].n - i)), t = pick[i]; pick[i] = pick[j]; pick[j] = t; }
      for (i = 0; i < cnt; i++) L[i] = pick[i]; if (in) h = S(pnga_pgroup_create)(L, cnt);
      for (i = 0; i < A[P].n; i++) { int j; for (j = 0; j < cnt; j++) if (pick[j] == i) N[0].m[N[0].n++] = A[P].m[i]; } nn = 1; mine = 0; break; }
    case 1: { /* split */
      int want = 1 + (int)(sg_x(&c) % 8), gsz = (A[P].n + want - 1) / want;
      gsz = (A[P].n + want - 1) / want; if (in) h = S(pnga_pgroup_split)(A[P].h, want);
      for (i = 0; i < A[P].n; i++) { if (i % gsz == 0) nn++; N[nn - 1].m[N[nn - 1].n++] = A[P].m[i]; if (A[P].m[i] == me) mine = nn - 1; } break; }
    case 2: { /* split by colour */
      int col[8], nc = 0, cs[8], j; for (i = 0; i < A[P].n; i++) col[i] = (int)(sg_x(&c) % 3);
      if (in) h = S(pnga_pgroup_split_irreg)(A[P].h, col[g_find(&A[P], me)]);
      for (i = 0; i < A[P].n; i++) { for (j = 0; j < nc && cs[j] != col[i]; j++) ; if (j == nc) cs[nc++] = col[i]; N[j].m[N[j].n++] = A[P].m[i]; if (A[P].m[i] == me) mine = j; } nn = nc; break; }
    case 3: /* alone */
      if (in) h = S(pnga_pgroup_self)(); for (i = 0; i < A[P].n; i++) { N[i].n = 1; N[i].m[0] = A[P].m[i]; if (A[P].m[i] == me) mine = i; } nn = A[P].n; break;
    case 4: /* another group with the members of an existing one, whatever the default group is */
      { int Q, ok, tries = 0; do { Q = (int)(sg_x(&c) % ng); ok = A[Q].alive; for (i = 0; ok && i < A[Q].n; i++) if (g_find(&A[P], A[Q].m[i]) < 0) ok = 0; } while (!ok && ++tries < 60); if (!ok) Q = P;
        if (g_find(&A[Q], me) >= 0) { h = S(pnga_pgroup_duplicate)(A[Q].h); mine = 0; ENSURE(h != A[Q].h, "a duplicate is a group of its own"); } N[0] = A[Q]; N[0].h = 0; nn = 1; break; }
    case 5: if (in) { g_comm(me, P); } break;
    case 6: if (in) g_array(me, P, (int)(r0 % 2)); break;
    }
    if (in && op <= 4) { ENSURE(S(pnga_pgroup_get_default)() == A[P].h, "creating groups leaves the default group alone"); S(pnga_pgroup_set_default)(-1); }
    for (i = 0; i < nn; i++) { /* register: groups this rank holds a handle of get it */
      N[i].alive = 1; N[i].h = i == mine && in ? h : -3; A[ng] = N[i]; G[me][ng] = N[i]; if (N[i].h == -3) G[me][ng].alive = 0; ng++; }
    for (i = 1; i < ng; i++) if (G[me][i].alive) { int j; for (j = 0; j < i; j++) ENSURE(!G[me][j].alive || G[me][j].h != G[me][i].h, "live groups have different handles"); }
    g_tables(me, ng - 1);
    if (ng > 4 && sg_x(&c) % 4 == 0) { /* destroy one */
      do k = 1 + (int)(sg_x(&c) % (ng - 1)); while (0); if (A[k].alive) { A[k].alive = 0; if (G[me][k].alive) g_destroy(me, k); g_tables(me, ng - 1); } }
    if (sg_x(&c) % 3 == 0) S(pnga_sync)();
  }
  for (k = 1; k < ng; k++) if (A[k].alive) { gs[me] = c * 2 + k; if (g_find(&A[k], me) >= 0) g_comm(me, k); }
  for (k = 1; k < ng; k++) if (G[me][k].alive) g_destroy(me, k);
  S(pnga_sync)(); gs[me] = c * 2 + 1; g_comm(me, 0);
  GA_TERM();
}
VS_ENTRY(vs_grp) {
  sg_begin(6); op_ = (int)vs_case("op", 0, 9); steps_ = (int)vs_long("steps", 1, 12);
  sim_run(sg_np, sg_seed, rank_grp);
  vs_reach("end");
  return 0;
}
