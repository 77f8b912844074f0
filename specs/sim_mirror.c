/* mirrored arrays: every simulated node holds its own copy; merging adds the copies */
#include "sim_ga.h"
static adesc T_, D_; static int op_;
static int node(int p) { return p / sim_node_size; }
static void node_sync(void) { S(pnga_sync)(); }
static void rank_mirror(int me) {
  adesc *a = &T_; int nn, first, sz = sg_size(a->type), i, j, d; long e, el = sg_elems(a); Integer g, h, pr, lo[MAXDIM], hi[MAXDIM], sub[MAXDIM]; unsigned long long c = (unsigned long long)sg_seed * 2654435761u + 5, r; model m[8], w; patch p; char *b;
  GA_INIT(); nn = sg_np / sim_node_size; first = node(me) * sim_node_size;
  ENSURE(S(pnga_cluster_nnodes)() == nn && S(pnga_cluster_nodeid)() == node(me) && S(pnga_cluster_nprocs)(0) == sim_node_size && S(pnga_cluster_procid)(nn - 1, 0) == (nn - 1) * sim_node_size, "the processes are grouped by node");
  for (i = 0; i < sg_np; i++) ENSURE(S(pnga_cluster_proc_nodeid)(i) == node(i), "a process is on its node");
  g = sg_create_g(a, S(pnga_pgroup_get_mirror)());
  ENSURE(!!S(pnga_is_mirrored)(g) == (nn > 1), "an array on the mirror group is mirrored exactly when there are several nodes");
  for (i = 0; i < nn; i++) { m[i] = m_new(a); for (e = 0; e < el; e++) m[i].v[e] = v_s(&c, 40, a->type); }
  b = malloc(el * sz + 16); sg_whole(a, &p);
  i = (int)(sg_x(&c) % sim_node_size); if (nn > 1 || me == 0) { if (me == first + i || nn == 1) { for (e = 0; e < el; e++) enc(b + e * sz, a->type, m[node(me)].v[e]); S(pnga_put)(g, p.lo, p.hi, b, p.ld); } }
  node_sync(); sg_compare(g, &m[node(me)], "a process reads the copy of its own node"); node_sync();
  /* owners are processes of the node, numbered inside the node */
  for (e = 0; e < el; e += 1 + el / 16) { p_elem(a, &p, e, sub); ENSURE(S(pnga_locate)(g, sub, &pr) == TRUE && pr >= 0, "every element has an owner"); S(pnga_distribution)(g, pr, lo, hi); for (d = 0; d < a->nd; d++) ENSURE(lo[d] <= sub[d] && sub[d] <= hi[d], "the owner's block contains the element"); }
  /* everybody of a node accumulates into its own copy */
  r = sg_x(&c); { char al[16]; val one = {1, 0}; enc(al, a->type, one); for (e = 0; e < el; e++) { val v = { (double)(node(me) + 1), 0 }; enc(b + e * sz, a->type, v); } S(pnga_acc)(g, p.lo, p.hi, b, p.ld, al);
    for (i = 0; i < nn; i++) for (e = 0; e < el; e++) m[i].v[e].re += (double)(i + 1) * sim_node_size; }
  node_sync(); sg_compare(g, &m[node(me)], "contributions of a node go to its own copy"); node_sync();
  if (op_ == 0) { /* merge */
    if (nn > 1) { w = m_new(a); for (i = 0; i < nn; i++) for (e = 0; e < el; e++) w.v[e] = v_add(w.v[e], m[i].v[e]); } else w = m[0];
    S(pnga_merge_mirrored)(g); sg_compare(g, &w, "merging gives every node the sum of the copies"); node_sync();
  } else { /* merge a patch into a distributed array */
    adesc *q = &D_; model dm = m_new(q); patch s, t; long k; Integer sb[MAXDIM], sa[MAXDIM];
    h = sg_create(q); for (e = 0; e < sg_elems(q); e++) dm.v[e] = v_s(&c, 40, a->type); sg_store(h, &dm);
    s = p_s(a, &c, 0, 0, 1); t = s; for (d = 0; d < a->nd; d++) { long room = q->dims[d] - (s.hi[d] - s.lo[d] + 1), o = (long)(sg_x(&c) % (room + 1)); t.lo[d] = 1 + o; t.hi[d] = t.lo[d] + s.hi[d] - s.lo[d]; }
    p_count(q, &t, 0);
    S(pnga_merge_distr_patch)(g, s.lo, s.hi, h, t.lo, t.hi); node_sync();
    for (k = 0; k < s.n; k++) { val v = {0, 0}; p_elem(a, &s, k, sa); p_elem(q, &t, k, sb); for (i = 0; i < nn; i++) v = v_add(v, m[i].v[sg_lin(a, sa)]); dm.v[sg_lin(q, sb)] = v; }
    sg_compare(h, &dm, "merging a patch stores the sum of the copies in the distributed patch and nothing else"); node_sync();
    sg_compare(g, &m[node(me)], "the mirrored array is unchanged"); node_sync();
    S(pnga_destroy)(h); for (j = 0; j < sg_nh[sim_me]; j++) if (sg_h[sim_me][j] == h) sg_h[sim_me][j--] = sg_h[sim_me][--sg_nh[sim_me]];
  }
  if (r % 2) { val c1 = {7, 0}; char al[16]; enc(al, a->type, c1); S(pnga_fill)(g, al); for (e = 0; e < el; e++) m[0].v[e] = c1; node_sync(); sg_compare(g, &m[0], "filling fills every copy"); node_sync(); S(pnga_zero)(g); for (e = 0; e < el; e++) m[0].v[e].re = 0; node_sync(); sg_compare(g, &m[0], "zeroing zeroes every copy"); node_sync(); }
  ENSURE(S(pnga_destroy)(g) == TRUE, "a mirrored array is destroyed"); sg_nh[sim_me] = 0;
  GA_TERM();
}
VS_ENTRY(vs_mirror) { int d;
  sg_begin(6); op_ = (int)vs_case("op", 0, 1); sim_node_size = (int)vs_long("node", 1, sg_np); REQUIRE(sg_np % sim_node_size == 0);
#ifdef SIM_PR
  REQUIRE(sg_np + sg_np / sim_node_size <= 8);
#endif

  { int nd = (int)vs_case("ndim", 1, 3), t = (int)vs_long("type", 0, 5), save = sg_np; sg_np = sim_node_size; sg_draw(&T_, nd, (int)vs_long("irreg", 0, 2) == 0 ? KIRREG : KREG, t, sg_maxd(nd)); sg_np = save; sg_draw(&D_, nd, (int)vs_long("dkind", 0, 2), t, sg_maxd(nd)); for (d = 0; d < nd; d++) if (D_.dims[d] < T_.dims[d]) { REQUIRE(D_.kind == KREG); D_.dims[d] = T_.dims[d]; } }
  sim_run(sg_np, sg_seed, rank_mirror);
  vs_reach("end");
  return 0;
}
