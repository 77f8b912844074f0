/* C02 (bounded): direct access to local data agrees with one-sided access; executed SPMD on the real library */
#include "sim_ga.h"
#include "ga_iterator.h"
static adesc A; static model M; static unsigned long long S0;
static char *own_;            /* 1 + rank that accessed an element directly */
static void elem(const char *base, const Integer *ld, const Integer *lo, const Integer *hi, unsigned long long *s, int wr) {
  Integer sub[MAXDIM]; int d, nd = A.nd, sz = sg_size(A.type); 
  memcpy(sub, lo, sizeof sub);
  for (;;) {
    long off = 0, f = 1, l = sg_lin(&A, sub); for (d = 0; d < nd; d++) { off += (sub[d] - lo[d]) * f; if (d < nd - 1) f *= ld[d]; }
    ENSURE(v_eq(dec(base + off * sz, A.type), M.v[l], A.type), "direct access shows the elements of the array");
    if (wr) { val v = v_s(s, 50, A.type); ENSURE(own_[l] == 0, "no two local pieces hold the same element"); own_[l] = 1 + sim_me; enc((char *)base + off * sz, A.type, v); M.v[l] = v; }
    for (d = 0; d < nd; d++) { if (++sub[d] <= hi[d]) break; sub[d] = lo[d]; }
    if (d == nd) break;
  }
}
static void rank(int me) {
  unsigned long long s = S0 + 0x9e3779b9 * (me + 1); Integer g, lo[MAXDIM], hi[MAXDIM], ld[MAXDIM], l2[MAXDIM], h2[MAXDIM]; int i, d, mode; char *p; _iterator_hdl h; long cnt = 0;
  for (i = 0; i < 4; i++) sg_x(&s);
  GA_INIT();
  g = sg_create(&A);
  sg_store(g, &M);
  mode = (int)(sg_x(&(unsigned long long){S0}) % 3);
  if (mode == 0 || (mode == 2 && sg_blocked(&A) && A.restr)) { /* the local iterator */
    S(pnga_local_iterator_init)(g, &h);
    while (S(pnga_local_iterator_next)(&h, lo, hi, &p, ld)) { for (d = 0, i = 1; d < A.nd; d++) if (lo[d] > hi[d]) i = 0; if (i) elem(p, ld, lo, hi, &s, 1); }
  } else if (!sg_blocked(&A)) { /* own block, and parts of it */
    S(pnga_distribution)(g, me, lo, hi);
    for (d = 0, i = 1; d < A.nd; d++) if (lo[d] < 1 || lo[d] > hi[d]) i = 0;
    if (i) {
      for (d = 0; d < A.nd; d++) { l2[d] = lo[d] + sg_x(&s) % (hi[d] - lo[d] + 1); h2[d] = l2[d] + sg_x(&s) % (hi[d] - l2[d] + 1); }
      S(pnga_access_ptr)(g, l2, h2, &p, ld); elem(p, ld, l2, h2, &s, 0); S(pnga_release)(g, l2, h2);
      S(pnga_access_ptr)(g, lo, hi, &p, ld); elem(p, ld, lo, hi, &s, 1); S(pnga_release_update)(g, lo, hi);
    }
  } else { /* every block of the distribution that this rank owns, in two ways */
    long tot = S(pnga_total_blocks)(g), b; char *seg = 0; Integer len = 0, nbk[MAXDIM], bdm[MAXDIM], ix[MAXDIM];
    S(pnga_access_block_segment_ptr)(g, me, &seg, &len);
    if (A.kind != KTIRREG) S(pnga_get_block_info)(g, nbk, bdm); else for (d = 0; d < A.nd; d++) nbk[d] = A.nb[d];
    for (b = 0; b < tot; b++) {
      Integer o; S(pnga_distribution)(g, b, lo, hi);
      { long k = b; for (d = 0; d < A.nd; d++) { ix[d] = k % nbk[d]; k /= nbk[d]; } }
      if (A.kind == KBC) o = b % sg_np;
      else { Integer c[MAXDIM], r; for (r = 0; r < sg_np; r++) { S(pnga_proc_topology)(g, r, c); for (d = 0, i = 1; d < A.nd; d++) if (c[d] != ix[d] % A.pg[d]) i = 0; if (i) o = r; } }
      if (o != me) continue;
      S(pnga_access_block_ptr)(g, b, &p, ld);
      { int sz = sg_size(A.type); long n = 1, f = 1, q = 0; for (d = 0; d < A.nd; d++) { q += (hi[d] - lo[d]) * f; if (d < A.nd - 1) f *= ld[d]; n *= hi[d] - lo[d] + 1; } cnt += n;
        ENSURE(p >= seg && p + (q + 1) * sz <= seg + len * sz, "a block lies inside the owner's segment"); }
      if (A.kind != KBC) { char *p2; Integer ld2[MAXDIM]; S(pnga_access_block_grid_ptr)(g, ix, &p2, ld2); ENSURE(p2 == p, "both block accesses agree"); for (d = 0; d < A.nd - 1; d++) ENSURE(ld[d] == ld2[d], "both block accesses agree on strides"); }
      elem(p, ld, lo, hi, &s, 1);
      S(pnga_release_update_block)(g, b);
    }
    ENSURE(cnt <= len, "the segment holds all local elements");
  }
  S(pnga_sync)();
  { long k, n = sg_elems(&A); for (k = 0; k < n; k++) ENSURE(own_[k], "every element is held by some rank"); }
  sg_compare(g, &M, "elements stored directly are seen by one-sided access");
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_access) {
  int nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 6);
  sg_begin(6);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd));
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  M = m_new(&A); own_ = calloc(sg_elems(&A), 1); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 50); }
  sim_run(sg_np, sg_seed, rank);
  vs_reach("end");
  return 0;
}
