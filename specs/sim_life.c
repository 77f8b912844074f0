/* lifecycle of arrays: handles, names, properties, overlays, limits, user types over random histories */
#include "sim_ga.h"
#define NS 5
extern int pnga_register_type(size_t); extern int pnga_deregister_type(int);
static adesc T_[NS]; static int steps_, op_, limit_;
typedef struct { int live, prop, ov; Integer g; adesc *a; model m; char name[32]; long local; } slot;
static slot SL[8][NS];
static long local_size(Integer g, const adesc *a) { /* bytes this process holds */
  Integer lo[MAXDIM], hi[MAXDIM], ld[MAXDIM]; int d; long n = 1;
  if (!sg_blocked(a)) { S(pnga_distribution)(g, S(pnga_nodeid)(), lo, hi); for (d = 0; d < a->nd; d++) { if (hi[d] < lo[d] || lo[d] < 1) return 0; n *= hi[d] - lo[d] + 1; } return n * sg_size(a->type); }
  { void *p; Integer len; S(pnga_access_block_segment_ptr)(g, S(pnga_nodeid)(), &p, &len); S(pnga_release_block_segment)(g, S(pnga_nodeid)()); (void)ld; return (long)len * sg_size(a->type); } }
static void read_patch(slot *s, unsigned long long *x, const char *what) {
  patch p = p_s(s->a, x, 0, 0, 1); int sz = sg_size(s->a->type); char *b = malloc(p.span * sz + 16), *q = malloc(p.span * sz + 16); long k; Integer sub[MAXDIM];
  memset(b, 0x5a, p.span * sz + 16); memset(q, 0x5a, p.span * sz + 16);
  for (k = 0; k < p.n; k++) { long o = p_elem(s->a, &p, k, sub); enc(q + o * sz, s->a->type, s->m.v[sg_lin(s->a, sub)]); }
  S(pnga_get)(s->g, p.lo, p.hi, b, p.ld);
  ENSURE(!memcmp(b, q, p.span * sz + 16), what);
  free(b); free(q);
}
static void fill_model(slot *s, unsigned long long *c) { long e; for (e = 0; e < sg_elems(s->a); e++) s->m.v[e] = v_s(c, 60, s->a->type); }
static void forget(Integer g) { int i; for (i = 0; i < sg_nh[sim_me]; i++) if (sg_h[sim_me][i] == g) sg_h[sim_me][i--] = sg_h[sim_me][--sg_nh[sim_me]]; }
static void note(Integer g) { if (sg_nh[sim_me] < 256) sg_h[sim_me][sg_nh[sim_me]++] = g; }
static void rank_life(int me) {
  slot *s = SL[me]; int st, i, j, sz; unsigned long long c = (unsigned long long)sg_seed * 2654435761u + 3, mine = c * 31 + me * 2 + 1;
  memset(s, 0, sizeof SL[me]); GA_INIT();
  for (st = 0; st < steps_; st++) {
    int op = st == 0 ? 0 : st == 1 && op_ < 11 ? op_ : (int)(sg_x(&c) % 11), k = (int)(sg_x(&c) % NS), k2 = (int)(sg_x(&c) % NS); unsigned long long r = sg_x(&c);
    if (op == 1 || op >= 2) for (i = 0; i < NS && !s[k].live; i++) k = (k + 1) % NS;
    if (op != 0 && op != 9 && op != 10 && !s[k].live) op = 0;
    if (op == 0 && s[k].live) { for (i = 0; i < NS && s[k].live; i++) k = (k + 1) % NS; if (s[k].live) op = 1; }
    if ((op == 2 || op == 8) && (k2 == k || s[k2].live)) { for (i = 0; i < NS && (k2 == k || s[k2].live); i++) k2 = (k2 + 1) % NS; if (k2 == k || s[k2].live) op = 5; }
    if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d step %d op %d slot %d\n", me, st, op, k);
    switch (op) {
    case 0: s[k].a = &T_[k]; s[k].m = m_new(s[k].a); fill_model(&s[k], &c); s[k].g = sg_create(s[k].a); s[k].live = 1; s[k].prop = s[k].ov = 0; s[k].name[0] = 0; sg_store(s[k].g, &s[k].m); s[k].local = local_size(s[k].g, s[k].a); break;
    case 1: ENSURE(S(pnga_destroy)(s[k].g) == TRUE, "an array is destroyed"); forget(s[k].g); free(s[k].m.v); s[k].live = 0; ENSURE(!S(pnga_valid_handle)(s[k].g), "the handle of a destroyed array is not valid"); break;
    case 2: if (s[k].prop == 1) break; /* duplicate */
      { char nm[16]; sprintf(nm, "dup%d", (int)(r % 1000)); ENSURE(S(pnga_duplicate)(s[k].g, &s[k2].g, nm) == TRUE, "an array is duplicated"); note(s[k2].g); strcpy(s[k2].name, nm); s[k2].a = s[k].a; s[k2].m = m_new(s[k].a); s[k2].live = 1; s[k2].prop = s[k].prop; s[k2].ov = 0; if (s[k2].prop) { S(pnga_unset_property)(s[k2].g); s[k2].prop = 0; } fill_model(&s[k2], &c); sg_store(s[k2].g, &s[k2].m); s[k2].local = local_size(s[k2].g, s[k2].a);
        ENSURE(S(pnga_compare_distr)(s[k].g, s[k2].g) == TRUE, "a duplicate has the same distribution"); break; }
    case 3: { char ro[16] = "read_only", rc[16] = "read_cache"; if (s[k].prop || s[k].ov) break;
      if (r % 2 && s[k].a->kind <= KIRREG && !s[k].a->restr && !s[k].a->ghosts) { S(pnga_set_property)(s[k].g, ro); s[k].prop = 1; } else { S(pnga_set_property)(s[k].g, rc); s[k].prop = 2; }
      for (i = 0; i < 4; i++) read_patch(&s[k], &mine, "a read only array returns the values stored before"); S(pnga_sync)(); break; }
    case 4: if (!s[k].prop) break; S(pnga_unset_property)(s[k].g); s[k].prop = 0; S(pnga_sync)(); for (i = 0; i < 3; i++) read_patch(&s[k], &mine, "an array that is writable again still has its values"); S(pnga_sync)(); break;
    case 5: for (i = 0; i < 3; i++) read_patch(&s[k], &mine, "an array keeps its values until they are changed"); S(pnga_sync)(); break;
    case 6: if (s[k].prop) break; /* one process writes a patch */
      { patch p = p_s(s[k].a, &c, 0, 0, 1); int w = (int)(r % sg_np); long e; char *b; Integer sub[MAXDIM]; sz = sg_size(s[k].a->type); b = malloc(p.span * sz + 16); memset(b, 0x33, p.span * sz);
        for (e = 0; e < p.n; e++) { long o = p_elem(s[k].a, &p, e, sub); val v = v_s(&c, 60, s[k].a->type); enc(b + o * sz, s[k].a->type, v); s[k].m.v[sg_lin(s[k].a, sub)] = v; }
        S(pnga_sync)(); if (me == w) S(pnga_put)(s[k].g, p.lo, p.hi, b, p.ld); S(pnga_sync)(); free(b); break; }
    case 7: if (s[k].prop || s[k].ov) break; /* release the memory, then allocate again under the same handle */
      ENSURE(S(pnga_deallocate)(s[k].g) == TRUE, "an array is deallocated"); ENSURE(!S(pnga_valid_handle)(s[k].g), "a deallocated array is not valid"); ENSURE(S(pnga_allocate)(s[k].g) == TRUE, "an array can be allocated again"); fill_model(&s[k], &c); sg_store(s[k].g, &s[k].m); break;
    case 8: if (s[k].prop || s[k].ov || s[k].a->ghosts) break; /* overlay of the same shape */
      { Integer g = S(pnga_create_handle)(); adesc *a = s[k].a; S(pnga_set_data)(g, a->nd, a->dims, sg_types[a->type]); model m2;
        switch (a->kind) { case KCHUNK: S(pnga_set_chunk)(g, a->chunk); break; case KIRREG: S(pnga_set_irreg_distr)(g, a->map, a->nb); break; case KBC: S(pnga_set_block_cyclic)(g, a->bd); break; case KSL: S(pnga_set_block_cyclic_proc_grid)(g, a->bd, a->pg); break; case KTILED: S(pnga_set_tiled_proc_grid)(g, a->bd, a->pg); break; case KTIRREG: S(pnga_set_tiled_irreg_proc_grid)(g, a->map, a->nb, a->pg); break; }
        if (a->restr) S(pnga_set_restricted)(g, a->rl, a->nrl);
        ENSURE(S(pnga_overlay)(g, s[k].g) == TRUE, "an array of the same shape can overlay another one"); note(g);
        sg_compare(g, &s[k].m, "an overlay of the same shape sees the data of its parent"); S(pnga_sync)();
        fill_model(&s[k], &c); sg_store(g, &s[k].m); sg_compare(s[k].g, &s[k].m, "writing an overlay writes its parent"); S(pnga_sync)();
        ENSURE(S(pnga_destroy)(g) == TRUE, "an overlay is destroyed"); forget(g); (void)m2;
        if (a->kind == KREG && !a->restr) { /* too large for the memory of its parent */
          Integer d2[MAXDIM]; for (j = 0; j < a->nd; j++) d2[j] = a->dims[j] * 3 + 2; g = S(pnga_create_handle)(); S(pnga_set_data)(g, a->nd, d2, sg_types[a->type]); ENSURE(S(pnga_overlay)(g, s[k].g) == FALSE, "an overlay that does not fit is refused"); ENSURE(!S(pnga_valid_handle)(g), "a refused overlay has no valid handle"); }
        break; }
    case 9: { /* user types: bytes travel unchanged; the type number can be used again */
      size_t b = 1 + r % 40, e; int ty = S(pnga_register_type)(b), t2; Integer g, d1[2], lo[2], hi[2], ld[1]; int n0 = 1 + (int)(sg_x(&c) % 9), n1 = 1 + (int)(sg_x(&c) % 9); unsigned char *p, *q; long el = (long)n0 * n1; Integer qt, qn, qd[MAXDIM];
      ENSURE(ty >= 0, "a type is registered"); t2 = S(pnga_register_type)(b + 1); ENSURE(t2 >= 0 && t2 != ty, "registered types are different"); d1[0] = n0; d1[1] = n1;
      g = S(pnga_create_handle)(); S(pnga_set_data)(g, 2, d1, ty); ENSURE(S(pnga_allocate)(g) == TRUE, "an array of a user type is created"); note(g);
      S(pnga_inquire)(g, &qt, &qn, qd); ENSURE(qt == ty && qn == 2 && qd[0] == n0 && qd[1] == n1, "an array has the type and shape it was created with");
      p = malloc(el * b + 1); q = malloc(el * b + 1); for (e = 0; e < el * b; e++) p[e] = (unsigned char)sg_x(&c); lo[0] = lo[1] = 1; hi[0] = n0; hi[1] = n1; ld[0] = n0;
      if (me == (int)(r % sg_np)) S(pnga_put)(g, lo, hi, p, ld); S(pnga_sync)(); q[el * b] = 0x77; S(pnga_get)(g, lo, hi, q, ld); ENSURE(!memcmp(p, q, el * b) && q[el * b] == 0x77, "elements of user types are transferred byte by byte");
      S(pnga_sync)(); ENSURE(S(pnga_destroy)(g) == TRUE, "an array is destroyed"); forget(g);
      ENSURE(S(pnga_deregister_type)(ty) == 0 && S(pnga_deregister_type)(t2) == 0, "a type is deregistered"); ENSURE(S(pnga_deregister_type)(ty) != 0, "a type is deregistered once"); free(p); free(q); break; }
    case 10: { /* an array that does not fit is refused everywhere and leaves the account as it was */
      adesc *a = &T_[k2]; Integer g, av; long L, mx = 0, lim, i2; static long need[8]; int big = (int)(r % 2); unsigned long long q = sg_x(&c);
      g = sg_create(a); L = local_size(g, a); if (a->ghosts) { S(pnga_destroy)(g); forget(g); break; } need[me] = L; S(pnga_sync)(); for (i = 0; i < sg_np; i++) if (need[i] > mx) mx = need[i]; S(pnga_sync)();
      ENSURE(S(pnga_destroy)(g) == TRUE, "an array is destroyed"); forget(g);
      lim = big ? mx + (long)(q % 100) : mx - 1 - (long)(q % (mx < 50 ? mx : 50)); if (lim < 0) lim = 0; if (lim >= mx) big = 1;
      S(pnga_set_memory_limit)(lim + 1000); S(pnga_set_memory_limit)(lim + 37); S(pnga_set_memory_limit)(lim); ENSURE(S(pnga_memory_limited)() == TRUE, "a limit is reported"); av = S(pnga_memory_avail)(); ENSURE(av == lim, "the memory available is what the limit leaves");
      g = S(pnga_create_handle)(); S(pnga_set_data)(g, a->nd, a->dims, sg_types[a->type]);
      switch (a->kind) { case KCHUNK: S(pnga_set_chunk)(g, a->chunk); break; case KIRREG: S(pnga_set_irreg_distr)(g, a->map, a->nb); break; case KBC: S(pnga_set_block_cyclic)(g, a->bd); break; case KSL: S(pnga_set_block_cyclic_proc_grid)(g, a->bd, a->pg); break; case KTILED: S(pnga_set_tiled_proc_grid)(g, a->bd, a->pg); break; case KTIRREG: S(pnga_set_tiled_irreg_proc_grid)(g, a->map, a->nb, a->pg); break; }
      if (a->restr) S(pnga_set_restricted)(g, a->rl, a->nrl);
      i2 = S(pnga_allocate)(g);
      ENSURE(!!i2 == big, "an array is created exactly when it fits into the limit on every process");
      if (i2) { ENSURE(S(pnga_memory_avail)() == lim - L, "an array uses the memory of its local part");
        if (a->kind <= KIRREG && !a->restr && q % 3 == 0) { char ro[16] = "read_only"; Integer m0; long l2 = 40000000 + (long)(q % 1000); note(g); S(pnga_set_memory_limit)(l2); ENSURE(S(pnga_memory_avail)() == l2 - L, "an array uses the memory of its local part"); m0 = S(pnga_inquire_memory)();
          S(pnga_set_property)(g, ro); ENSURE(S(pnga_memory_avail)() == l2 - L - (long)(S(pnga_inquire_memory)() - m0), "the limit leaves what is not in use while an array is read only"); S(pnga_unset_property)(g); ENSURE(S(pnga_memory_avail)() == l2 - L, "an array that is writable again uses the memory of its local part"); ENSURE(S(pnga_inquire_memory)() == m0, "memory in use is the same after an array was read only"); S(pnga_set_memory_limit)(lim); forget(g); }
        ENSURE(S(pnga_destroy)(g) == TRUE, "an array is destroyed"); } else ENSURE(!S(pnga_valid_handle)(g), "a refused array has no valid handle");
      ENSURE(S(pnga_memory_avail)() == lim, "memory is given back"); S(pnga_set_memory_limit)(-1); ENSURE(S(pnga_memory_limited)() == FALSE, "a limit can be lifted"); break; }
    }
    /* everything that is alive is as it should be */
    { Integer tot = 0; int pads = 0; for (i = 0; i < NS; i++) if (s[i].live) { char *nm; Integer qt, qn, qd[MAXDIM]; adesc *a = s[i].a;
        ENSURE(S(pnga_valid_handle)(s[i].g) == TRUE, "the handle of an array is valid");
        S(pnga_inquire_name)(s[i].g, &nm); if (s[i].name[0]) ENSURE(!strcmp(nm, s[i].name), "an array has the name it was created with");
        S(pnga_inquire)(s[i].g, &qt, &qn, qd); ENSURE(qt == sg_types[a->type] && qn == a->nd, "an array has the type and dimension it was created with"); for (j = 0; j < a->nd; j++) ENSURE(qd[j] == a->dims[j], "an array has the extents it was created with");
        if (s[i].prop == 1 || a->ghosts) pads = 1; tot += s[i].local;
        for (j = 0; j < i; j++) if (s[j].live) ENSURE(s[i].g != s[j].g, "live arrays have different handles"); }
      if (!pads) { Integer q = S(pnga_inquire_memory)(); if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d memory %ld want %ld\n", me, (long)q, (long)tot); ENSURE(q == tot, "the memory in use is that of the live arrays"); } }
  }
  for (i = 0; i < NS; i++) if (s[i].live) { if (s[i].prop != 2) sg_compare(s[i].g, &s[i].m, "an array has its values at the end"); S(pnga_sync)(); if (sg_x(&c) % 2 && s[i].prop) { S(pnga_unset_property)(s[i].g); } ENSURE(S(pnga_destroy)(s[i].g) == TRUE, "an array is destroyed"); forget(s[i].g); free(s[i].m.v); s[i].live = 0; }
  ENSURE(S(pnga_inquire_memory)() == 0, "no memory is in use after the last array is gone");
  GA_TERM();
}
VS_ENTRY(vs_life) { int i;
  sg_begin(4); op_ = (int)vs_case("op", 0, 11); steps_ = (int)vs_long("steps", 1, 14); sim_node_size = (int)vs_long("node", 1, 4);
  for (i = 0; i < NS; i++) { int nd = (int)vs_long("nd", 1, 3), kind = (int)vs_long("k", 0, 6); sg_draw(&T_[i], nd, kind, (int)vs_long("type", 0, 5), sg_maxd(nd)); if (kind == KREG && vs_long("restr", 0, 5) == 0) sg_restrict(&T_[i]); if (kind == KIRREG && vs_long("gh", 0, 3) == 0) sg_ghosts(&T_[i], 2); }
  sim_run(sg_np, sg_seed, rank_life);
  vs_reach("end");
  return 0;
}
