/* C13 (bounded): ghost cells hold the periodic neighbours' values after an update; executed SPMD on the real library */
#include "sim_ga.h"
static adesc A; static model M; static unsigned long long S0; static int ok_;
static Integer wrap(Integer i, Integer n) { i = (i - 1) % n; if (i < 0) i += n; return i + 1; }
/* out: per dimension a bit set of admissible positions: 1 = below, 2 = inside, 4 = above */
static void cells(Integer g, int me, const int *out, int corners, const char *what) {
  Integer lo[MAXDIM], hi[MAXDIM], dims[MAXDIM], ld[MAXDIM], sub[MAXDIM], x[MAXDIM]; char *p, *q; int d, nd = A.nd, sz = sg_size(A.type);
  S(pnga_distribution)(g, me, lo, hi);
  for (d = 0; d < nd; d++) if (lo[d] < 1 || lo[d] > hi[d]) return;
  S(pnga_access_ghost_ptr)(g, dims, &p, ld);
  for (d = 0; d < nd; d++) { ENSURE(dims[d] == hi[d] - lo[d] + 1 + 2 * A.w[d], "the local block includes the ghost cells"); sub[d] = lo[d] - A.w[d]; }
  for (;;) {
    long off = 0, f = 1; int take = 1, nout = 0;
    for (d = 0; d < nd; d++) { int pos = sub[d] < lo[d] ? 1 : sub[d] > hi[d] ? 4 : 2; if (!(out[d] & pos)) take = 0; nout += pos != 2; off += (sub[d] - lo[d] + A.w[d]) * f; if (d < nd - 1) f *= ld[d]; x[d] = wrap(sub[d], A.dims[d]); }
    if (nout > 1 && !corners) take = 0;
    if (take || !nout) { val v = dec(p + off * sz, A.type), w = M.v[sg_lin(&A, x)];
      if (!v_eq(v, w, A.type)) { if (getenv("VS_VERBOSE")) { fprintf(stderr, "rank %d cell", me); for (d = 0; d < nd; d++) fprintf(stderr, " %ld", (long)sub[d]); fprintf(stderr, " got %g want %g\n", v.re, w.re); } ENSURE(0, what); } }
    for (d = 0; d < nd; d++) { if (++sub[d] <= hi[d] + A.w[d]) break; sub[d] = lo[d] - A.w[d]; }
    if (d == nd) break;
  }
  { Integer e[MAXDIM], l2[MAXDIM]; long off = 0, f = 1; unsigned long long s = S0 + me; int i; for (i = 0; i < 3; i++) sg_x(&s);
    for (d = 0; d < nd; d++) { e[d] = 1 + sg_x(&s) % dims[d]; off += (e[d] - 1) * f; if (d < nd - 1) f *= ld[d]; }
    S(pnga_access_ghost_element_ptr)(g, &q, e, l2); ENSURE(q == p + off * sz, "a ghost element is addressed inside the local block"); S(pnga_release_ghost_element)(g, e); }
  S(pnga_release_ghosts)(g);
}
static void scrub(Integer g, int me) { /* overwrite all ghost cells with garbage */
  Integer lo[MAXDIM], hi[MAXDIM], dims[MAXDIM], ld[MAXDIM], sub[MAXDIM]; char *p; int d, nd = A.nd, sz = sg_size(A.type);
  S(pnga_distribution)(g, me, lo, hi);
  for (d = 0; d < nd; d++) if (lo[d] < 1 || lo[d] > hi[d]) return;
  S(pnga_access_ghost_ptr)(g, dims, &p, ld);
  for (d = 0; d < nd; d++) sub[d] = lo[d] - A.w[d];
  for (;;) {
    long off = 0, f = 1; int o = 0; for (d = 0; d < nd; d++) { if (sub[d] < lo[d] || sub[d] > hi[d]) o = 1; off += (sub[d] - lo[d] + A.w[d]) * f; if (d < nd - 1) f *= ld[d]; }
    if (o) { val v = { 7777, 7777 }; enc(p + off * sz, A.type, v); }
    for (d = 0; d < nd; d++) { if (++sub[d] <= hi[d] + A.w[d]) break; sub[d] = lo[d] - A.w[d]; }
    if (d == nd) break;
  }
  S(pnga_release_update_ghosts)(g);
}
static void rank(int me) {
  unsigned long long s = S0; Integer g, h; int i, d, nd = A.nd, mode, all[MAXDIM], corner, rep; logical st;
  for (i = 0; i < 5; i++) sg_x(&s);
  for (d = 0; d < nd; d++) all[d] = 7;
  GA_INIT();
  mode = (int)(sg_x(&s) % 18); if (mode == 15) mode = 0; if (getenv("GH_MODE")) mode = atoi(getenv("GH_MODE")); corner = sg_x(&s) % 4 != 0;
  if (A.kind != KIRREG) { /* widths that fit the blocks of this layout */
    adesc b = A; Integer g0, lo[MAXDIM], hi[MAXDIM]; int r; b.ghosts = 0; g0 = sg_create(&b);
    if (me == 0) { unsigned long long t = S0 + 5; for (d = 0; d < nd; d++) A.w[d] = sg_x(&t) % 3; for (r = 0; r < sg_np; r++) { S(pnga_distribution)(g0, r, lo, hi);
      for (d = 0; d < nd; d++) if (lo[d] < 1 || lo[d] > hi[d]) ok_ = 0; else if (hi[d] - lo[d] + 1 < A.w[d]) A.w[d] = hi[d] - lo[d] + 1; } A.ghosts = ok_; }
    S(pnga_sync)(); S(pnga_destroy)(g0);
  }
  if (A.ghosts) {
  g = sg_create(&A);
  if (sg_x(&s) % 2 || !corner) S(pnga_set_ghost_corner_flag)(g, corner); /* corners are updated unless switched off */
  sg_store(g, &M);
  if (getenv("VS_VERBOSE") && me == 0) fprintf(stderr, "mode %d corner %d widths %ld %ld %ld\n", mode, corner, (long)A.w[0], (long)A.w[1], (long)A.w[2]);
  for (rep = 0; rep < 2; rep++) {
    scrub(g, me); S(pnga_sync)();
    switch (mode) {
    case 0: case 1: case 2: S(pnga_update_ghosts)(g); cells(g, me, all, corner, "ghost cells after an update"); break;
    case 3: case 4: S(pnga_update_ghosts_nb)(g, &h); S(pnga_nbwait)(&h); cells(g, me, all, 1, "ghost cells after a non-blocking update"); break;
    case 5: S(pnga_update1_ghosts)(g); cells(g, me, all, corner, "ghost cells after update 1"); break;
    case 6: st = S(pnga_update2_ghosts)(g); S(pnga_sync)(); if (st) cells(g, me, all, 1, "ghost cells after update 2"); break;
    case 7: st = S(pnga_update3_ghosts)(g); S(pnga_sync)(); if (st) cells(g, me, all, 1, "ghost cells after update 3"); break;
    case 8: st = S(pnga_update4_ghosts)(g); if (st) cells(g, me, all, corner, "ghost cells after update 4"); break;
    case 14: st = S(pnga_update44_ghosts)(g); S(pnga_sync)(); if (st) cells(g, me, all, corner, "ghost cells after update 44"); break;
    case 16: st = S(pnga_update6_ghosts)(g); S(pnga_sync)(); if (st) cells(g, me, all, corner, "ghost cells after update 6"); break;
    case 17: st = S(pnga_update7_ghosts)(g); S(pnga_sync)(); if (st) cells(g, me, all, 1, "ghost cells after update 7"); break;
    case 9: case 10: for (d = 0; d < nd; d++) for (i = -1; i < 2; i += 2) { int pos[MAXDIM], e; logical fl = (sg_x(&s) % 2) && corner; st = S(pnga_update_ghost_dir)(g, d + 1, i, fl);
        for (e = 0; e < nd; e++) pos[e] = e == d ? (i < 0 ? 1 : 4) : fl ? 7 : 2;
        if (st) cells(g, me, pos, fl, "ghost cells after an update in one direction"); } break;
    case 11: case 12: { int pos[MAXDIM], e; Integer m[MAXDIM], lo[MAXDIM], hi[MAXDIM]; int skip = 0; for (d = 0; d < nd; d++) { long r = sg_x(&s) % 4; m[d] = r == 0 ? -1 : r == 1 ? 1 : 0; pos[d] = m[d] < 0 ? 1 : m[d] > 0 ? 4 : 2; if (m[d] && !A.w[d]) skip = 1; }
        if (!skip) { S(pnga_nbget_ghost_dir)(g, m, &h); S(pnga_nbwait)(&h); cells(g, me, pos, 1, "ghost cells fetched from one direction"); S(pnga_sync)(); } } break;
    case 13: { Integer lo[MAXDIM], hi[MAXDIM], blo[MAXDIM], bhi[MAXDIM], ld[MAXDIM]; unsigned long long t = s + 31 * me; long n = 1, k; char *b; int sz = sg_size(A.type);
        S(pnga_update_ghosts)(g); S(pnga_distribution)(g, me, blo, bhi);
        for (d = 0; d < nd; d++) { long a = blo[d] - A.w[d], e = bhi[d] + A.w[d], x, y; if (sg_x(&t) % 3 == 0) { a = 1; e = A.dims[d]; } x = a + sg_x(&t) % (e - a + 1); y = x + sg_x(&t) % (e - x + 1); lo[d] = x; if (y - x + 1 > 2 * A.dims[d]) y = x; hi[d] = y; ld[d] = y - x + 1 + sg_x(&t) % 2; n *= ld[d]; }
        if (!corner) break; if (getenv("VS_VERBOSE")) for (d = 0; d < nd; d++) fprintf(stderr, "rank %d dim %d: block %ld:%ld of %ld patch %ld:%ld\n", me, d, (long)blo[d], (long)bhi[d], (long)A.dims[d], (long)lo[d], (long)hi[d]); b = malloc(n * sz); S(pnga_get_ghost_block)(g, lo, hi, b, ld);
        { Integer sub[MAXDIM], x[MAXDIM]; memcpy(sub, lo, sizeof sub); for (;;) { long off = 0, f = 1; for (d = 0; d < nd; d++) { off += (sub[d] - lo[d]) * f; f *= ld[d]; x[d] = wrap(sub[d], A.dims[d]); } ENSURE(v_eq(dec(b + off * sz, A.type), M.v[sg_lin(&A, x)], A.type), "a patch that includes ghost cells"); for (d = 0; d < nd; d++) { if (++sub[d] <= hi[d]) break; sub[d] = lo[d]; } if (d == nd) break; } }
        (void)k; free(b); } break;
    }
    S(pnga_sync)();
    sg_compare(g, &M, "an update of ghost cells leaves the array alone");
    S(pnga_sync)();
    if (rep == 0) { if (me == 0) { unsigned long long t = S0 + 99; m_fill(&M, &t, 50); } sg_store(g, &M); }
  }
  S(pnga_destroy)(g);
  }
  GA_TERM();
}
VS_ENTRY(vs_ghost) {
  int nd = (int)vs_case("ndim", 1, 7), kind = (int)vs_case("kind", 0, 2);
  sg_begin(6);
  sg_draw(&A, nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd));
  ok_ = 1;
  if (kind == KIRREG) sg_ghosts(&A, 3);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; m_fill(&M, &s, 50); }
  sim_run(sg_np, sg_seed, rank);
  if (A.ghosts) vs_reach("ghosts");
  vs_reach("end");
  return 0;
}
