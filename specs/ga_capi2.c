/* C12: C wrappers with distribution maps, subscript lists and special argument orders.  Real code: global/src/capi.c */
#include "ga_capi.h"
/* ---- irregular distributions: the map has one block list per dimension; dimensions are reversed, positions counted from one ---- */
static int mi_; static Integer coff_, foff_, wd_, wj_, want_, tot_;
static void mapin(Integer *map, Integer *block, int nd, const char *w) { (void)w; int k;
  for (k = 0; k < nd; k++) ENSURE(block[k] == ea_[0][k], "numbers of blocks reversed");
  ENSURE(map[foff_] == want_, "block list of a dimension reversed and counted from one"); ncall_++; }
static void rev(Integer *a, int slot) { int k; for (k = 0; k < nd_[0]; k++) ENSURE(a[k] == ea_[slot][k], "array reversed"); }
logical pnga_create_irreg(Integer type, Integer ndim, Integer *dims, char *name, Integer *map, Integer *block, Integer *g_a) { ENSURE(type == 7 && ndim == nd_[0] && name == buf_, "arguments handed on"); rev(dims, 1); mapin(map, block, nd_[0], ""); *g_a = os_[0]; return rv_; }
logical pnga_create_irreg_config(Integer type, Integer ndim, Integer *dims, char *name, Integer *map, Integer *block, Integer p, Integer *g_a) { ENSURE(p == 9, "group handed on"); return pnga_create_irreg(type, ndim, dims, name, map, block, g_a); }
logical pnga_create_ghosts_irreg(Integer type, Integer ndim, Integer *dims, Integer *width, char *name, Integer *map, Integer *block, Integer *g_a) { rev(width, 2); return pnga_create_irreg(type, ndim, dims, name, map, block, g_a); }
logical pnga_create_ghosts_irreg_config(Integer type, Integer ndim, Integer *dims, Integer *width, char *name, Integer *map, Integer *block, Integer p, Integer *g_a) { rev(width, 2); return pnga_create_irreg_config(type, ndim, dims, name, map, block, p, g_a); }
void pnga_set_irreg_distr(Integer g, Integer *map, Integer *block) { ENSURE(g == G0_, "handle handed on"); mapin(map, block, nd_[0], ""); }
void pnga_set_tiled_irreg_proc_grid(Integer g, Integer *map, Integer *block, Integer *grid) { rev(grid, 1); pnga_set_irreg_distr(g, map, block); }
#define PROD VS_BOUND(1L << 20, 5)
#define MAPRUN(IN, T, VS, SFX, FN) { T *dims = IN("dims", nd, 1, 0, 1), *width = IN("width", nd, 2, 0, 1), *block, *map; \
  block = (T*)VS("block", nd, 7, 1, PROD); tot_ = 0; for (k = 0; k < nd; k++) { ea_[0][nd - 1 - k] = block[k]; tot_ += block[k]; } \
  map = (T*)VS("map", tot_, 40, -1000000, 1000000); REQUIRE(wj_ < block[wd]); \
  coff_ = 0; foff_ = 0; for (k = 0; k < nd; k++) { if (k < wd) coff_ += block[k]; if (k > wd) foff_ += block[k]; } \
  coff_ += wj_; foff_ += wj_; want_ = (Integer)map[coff_] + 1; \
  rv_ = vs_int("ret", 0, 1); os_[0] = OUT1_int("h"); ncall_ = 0; \
  switch (fn) { \
  case 0: ENSURE(NGA_Create_irreg##SFX(7, nd, dims, buf_, block, map) == (rv_ ? os_[0] : 0), "the new handle or zero"); break; \
  case 1: ENSURE(NGA_Create_irreg_config##SFX(7, nd, dims, buf_, block, map, 9) == (rv_ ? os_[0] : 0), "the new handle or zero"); break; \
  case 2: ENSURE(NGA_Create_ghosts_irreg##SFX(7, nd, dims, width, buf_, block, map) == (rv_ ? os_[0] : 0), "the new handle or zero"); break; \
  case 3: ENSURE(NGA_Create_ghosts_irreg_config##SFX(7, nd, dims, width, buf_, block, map, 9) == (rv_ ? os_[0] : 0), "the new handle or zero"); break; \
  case 4: GA_Set_irreg_distr##SFX(ga, map, block); break; \
  case 5: NGA_Set_irreg_distr##SFX(ga, map, block); break; \
  case 6: GA_Set_tiled_irreg_proc_grid##SFX(ga, map, block, dims); break; \
  case 7: NGA_Set_tiled_irreg_proc_grid##SFX(ga, map, block, dims); break; } \
  ENSURE(ncall_ == 1, "done by one call"); ENSURE(map[coff_] + 1 == want_, "the caller's map is unchanged"); for (k = 0; k < nd; k++) ENSURE(block[k] == ea_[0][nd - 1 - k], "the caller's array is unchanged"); }
VS_ENTRY(vs_map) { int fn = (int)vs_case("fn", 0, 7), nd = (int)vs_case("ndim", 1, 7), wide = (int)vs_case("wide", 0, 1), k, wd; int ga;
  base(nd); ga = (int)G0_; wd = (int)vs_case("wd", 0, 6); if (wd >= nd) wd = nd - 1; wd_ = wd; wj_ = vs_witness("wj", 0, PROD - 1);
  if (wide) MAPRUN(IN_i64, int64_t, vs_longs, 64, fn) else MAPRUN(IN_int, int, vs_ints, , fn)
  vs_reach("end"); return 0; }
/* ---- lists of subscripts ---- */
static int flag_; static Integer ww_, nv_; static long sub_[7];
#define NSUB VS_BOUND(1L << 20, 6)
static void subs(void *p, Integer c, Integer n) { int k; ncall_++; ENSURE(n == nv_, "number of elements handed on");
  for (k = 0; k < nd_[0]; k++) { Integer f = c ? (Integer)((int**)p)[ww_][nd_[0] - 1 - k] + 1 : ((Integer*)p)[ww_ * nd_[0] + k]; ENSURE(f == sub_[nd_[0] - 1 - k] + 1, "subscript reversed and counted from one"); } }
void pnga_scatter(Integer g, void *v, void *s, Integer c, Integer n) { ENSURE(g == G0_ && v == (void*)buf_, "array and buffer handed on"); flag_ = 1; subs(s, c, n); }
void pnga_gather(Integer g, void *v, void *s, Integer c, Integer n) { ENSURE(g == G0_ && v == (void*)buf_, "array and buffer handed on"); flag_ = 2; subs(s, c, n); }
void pnga_scatter_acc(Integer g, void *v, void *s, Integer c, Integer n, void *alpha) { ENSURE(g == G0_ && v == (void*)buf_ && alpha == (void*)(buf_ + 8), "array, buffer and factor handed on"); flag_ = 3; subs(s, c, n); }
static void want(int f) { ENSURE(ncall_ == 1 && flag_ == f, "done by one call of the operation"); }
VS_ENTRY(vs_flat) { int fn = (int)vs_case("fn", 0, 2), nd = (int)vs_case("ndim", 1, 7), wide = (int)vs_case("wide", 0, 1), k, ga; base(nd); ga = (int)G0_;
  nv_ = vs_long("n", 1, NSUB); ww_ = vs_witness("w", 0, nv_ - 1); ncall_ = 0;
  if (wide) { int64_t *s = (int64_t*)vs_longs("subs", nv_ * nd, 50, -BIG64, BIG64); for (k = 0; k < nd; k++) sub_[k] = s[ww_ * nd + k];
    if (fn == 0) { NGA_Scatter_flat64(ga, buf_, s, nv_); want(1); } else if (fn == 1) { NGA_Gather_flat64(ga, buf_, s, nv_); want(2); } else { NGA_Scatter_acc_flat64(ga, buf_, s, nv_, buf_ + 8); want(3); }
  } else { int *s = vs_ints("subs", nv_ * nd, 50, IMIN, IMAX - 1); for (k = 0; k < nd; k++) sub_[k] = s[ww_ * nd + k];
    if (fn == 0) { NGA_Scatter_flat(ga, buf_, s, (int)nv_); want(1); } else if (fn == 1) { NGA_Gather_flat(ga, buf_, s, (int)nv_); want(2); } else { NGA_Scatter_acc_flat(ga, buf_, s, (int)nv_, buf_ + 8); want(3); } }
  vs_reach("end"); return 0; }
/* row pointers */
static char *ar_, **rp_;
VS_ENTRY(vs_rows) { int fn = (int)vs_case("fn", 0, 2), nd = (int)vs_case("ndim", 1, 7), wide = (int)vs_case("wide", 0, 1), k, ga; base(nd); ga = (int)G0_;
  nv_ = vs_long("n", 1, NSUB); ww_ = vs_witness("w", 0, nv_ - 1); ncall_ = 0;
  ar_ = wide ? vs_arena_of("arena", 64) : vs_arena_of("arena", 32); rp_ = vs_ptrs("rows", nv_, 6, ar_, 64);
  if (wide) { int64_t *r = (int64_t*)rp_[ww_]; long *v = vs_longs("subs", nd, 7, -BIG64, BIG64); for (k = 0; k < nd; k++) { sub_[k] = v[k]; r[k] = v[k]; }
    if (fn == 0) { NGA_Scatter64(ga, buf_, (int64_t**)rp_, nv_); want(1); } else if (fn == 1) { NGA_Gather64(ga, buf_, (int64_t**)rp_, nv_); want(2); } else { NGA_Scatter_acc64(ga, buf_, (int64_t**)rp_, nv_, buf_ + 8); want(3); }
  } else { int *r = (int*)rp_[ww_]; int *v = vs_ints("subs", nd, 7, IMIN, IMAX - 1); for (k = 0; k < nd; k++) { sub_[k] = v[k]; r[k] = v[k]; }
    if (fn == 0) { NGA_Scatter(ga, buf_, (int**)rp_, (int)nv_); want(1); } else if (fn == 1) { NGA_Gather(ga, buf_, (int**)rp_, (int)nv_); want(2); } else { NGA_Scatter_acc(ga, buf_, (int**)rp_, (int)nv_, buf_ + 8); want(3); } }
  vs_reach("end"); return 0; }
/* ---- two dimensional patches given by single bounds; owners of a patch ---- */
static long m_[12]; static Integer alo_[2], ahi_[2];
void pnga_print_patch(Integer g, Integer *lo, Integer *hi, Integer pretty) { ncall_++; ENSURE(g == G0_ && pretty == 1, "arguments handed on"); ENSURE(lo[1] == m_[0] + 1 && hi[1] == m_[1] + 1 && lo[0] == m_[2] + 1 && hi[0] == m_[3] + 1, "bounds reversed and counted from one"); }
VS_ENTRY(vs_two) { int *v, k, ga; base(2); ga = (int)G0_; ncall_ = 0; v = vs_ints("bounds", 4, 4, IMIN, IMAX); for (k = 0; k < 4; k++) m_[k] = v[k];
  GA_Print_patch(ga, v[0], v[1], v[2], v[3], 1); ENSURE(ncall_ == 1, "done by one call");
  vs_reach("end"); return 0; }
/* ---- matrix products: the row major product is the column major product with the factors exchanged ---- */
static int ft_; static double al_, be_, ai_, bi_; static float af_, bf_, aif_, bif_;
void pnga_matmul(char *ta, char *tb, void *al, void *be, Integer a, Integer ail, Integer aih, Integer ajl, Integer ajh, Integer b, Integer bil, Integer bih, Integer bjl, Integer bjh, Integer c, Integer cil, Integer cih, Integer cjl, Integer cjh) {
  long m = m_[0], n = m_[1], k = m_[2]; ncall_++;
  ENSURE(a == G0_ + 1 && b == G0_ && c == G0_ + 2, "factors exchanged because the dimensions are reversed"); ENSURE(*ta == 'b' && *tb == 'a', "transpositions go with their factors");
  ENSURE(ail == 1 && aih == n && ajl == 1 && ajh == k, "extent of the second factor"); ENSURE(bil == 1 && bih == k && bjl == 1 && bjh == m, "extent of the first factor"); ENSURE(cil == 1 && cih == n && cjl == 1 && cjh == m, "extent of the product");
  switch (ft_) {
  case 0: ENSURE(*(double*)al == al_ && *(double*)be == be_, "factors handed on"); break;
  case 1: ENSURE(*(float*)al == af_ && *(float*)be == bf_, "factors handed on"); break;
  case 2: ENSURE(((DoubleComplex*)al)->real == al_ && ((DoubleComplex*)al)->imag == ai_ && ((DoubleComplex*)be)->real == be_ && ((DoubleComplex*)be)->imag == bi_, "factors handed on"); break;
  default: ENSURE(((SingleComplex*)al)->real == af_ && ((SingleComplex*)al)->imag == aif_ && ((SingleComplex*)be)->real == bf_ && ((SingleComplex*)be)->imag == bif_, "factors handed on"); } }
VS_ENTRY(vs_gemm) { int wide = (int)vs_case("wide", 0, 1), ga; DoubleComplex z, w; SingleComplex p, q; ft_ = (int)vs_case("type", 0, 3); base(2); ga = (int)G0_; ncall_ = 0;
  m_[0] = vs_long("m", 1, wide ? BIG64 : IMAX); m_[1] = vs_long("n", 1, wide ? BIG64 : IMAX); m_[2] = vs_long("k", 1, wide ? BIG64 : IMAX);
  al_ = vs_double("al"); be_ = vs_double("be"); ai_ = vs_double("ai"); bi_ = vs_double("bi"); af_ = vs_float("af"); bf_ = vs_float("bf"); aif_ = vs_float("aif"); bif_ = vs_float("bif");
  REQUIRE(al_ == al_ && be_ == be_ && ai_ == ai_ && bi_ == bi_ && af_ == af_ && bf_ == bf_ && aif_ == aif_ && bif_ == bif_);
  z.real = al_; z.imag = ai_; w.real = be_; w.imag = bi_; p.real = af_; p.imag = aif_; q.real = bf_; q.imag = bif_;
#define ARG(x, y) 'a', 'b', m_[0], m_[1], m_[2], x, ga, ga + 1, y, ga + 2
#define IARG(x, y) 'a', 'b', (int)m_[0], (int)m_[1], (int)m_[2], x, ga, ga + 1, y, ga + 2
  if (wide) { if (ft_ == 0) GA_Dgemm64(ARG(al_, be_)); else if (ft_ == 1) GA_Sgemm64(ARG(af_, bf_)); else if (ft_ == 2) GA_Zgemm64(ARG(z, w)); else GA_Cgemm64(ARG(p, q)); }
  else { if (ft_ == 0) GA_Dgemm(IARG(al_, be_)); else if (ft_ == 1) GA_Sgemm(IARG(af_, bf_)); else if (ft_ == 2) GA_Zgemm(IARG(z, w)); else GA_Cgemm(IARG(p, q)); }
  ENSURE(ncall_ == 1, "done by one call");
  vs_reach("end"); return 0; }
/* owners of a patch: np of them, each with a block */
static int npr_, ok_; static long *blk_, *own_;
static void patchin(Integer g, Integer *lo, Integer *hi) { int k; ENSURE(g == G0_, "handle handed on"); for (k = 0; k < nd_[0]; k++) ENSURE(lo[k] == ea_[0][k] && hi[k] == ea_[1][k], "bounds reversed and counted from one"); }
logical pnga_locate_nnodes(Integer g, Integer *lo, Integer *hi, Integer *np) { patchin(g, lo, hi); *np = npr_; return ok_; }
logical pnga_locate_region(Integer g, Integer *lo, Integer *hi, Integer *map, Integer *proc, Integer *np) { int i; patchin(g, lo, hi); ncall_++; *np = npr_; for (i = 0; i < npr_ * 2 * nd_[0]; i++) map[i] = blk_[i]; for (i = 0; i < npr_; i++) proc[i] = own_[i]; return ok_; }
VS_ENTRY(vs_owners) { int nd = (int)vs_case("ndim", 1, 7), wide = (int)vs_case("wide", 0, 1), i, k, ga, r; base(nd); ga = (int)G0_; ncall_ = 0; npr_ = (int)vs_case("np", 1, 4); ok_ = (int)vs_int("ok", 0, 1);
  own_ = vs_longs("own", npr_, 4, 0, 100000); blk_ = vs_longs("blk", npr_ * 2 * nd, 56, wide ? -BIG64 : IMIN + 1, wide ? BIG64 : IMAX);
  { int *procs = vs_ints("procs", 4, 4, -1, -1);
  if (wide) { int64_t *lo = IN_i64("lo", nd, 0, 1, 1), *hi = IN_i64("hi", nd, 1, 1, 1), map[56]; r = NGA_Locate_region64(ga, lo, hi, map, procs);
    if (ok_) for (i = 0; i < 2 * npr_; i++) for (k = 0; k < nd; k++) ENSURE(map[i * nd + k] == blk_[i * nd + nd - 1 - k] - 1, "block handed back reversed and counted from zero"); }
  else { int *lo = IN_int("lo", nd, 0, 1, 1), *hi = IN_int("hi", nd, 1, 1, 1), map[56]; r = NGA_Locate_region(ga, lo, hi, map, procs);
    if (ok_) for (i = 0; i < 2 * npr_; i++) for (k = 0; k < nd; k++) ENSURE(map[i * nd + k] == blk_[i * nd + nd - 1 - k] - 1, "block handed back reversed and counted from zero"); }
  ENSURE(r == (ok_ ? npr_ : 0), "the number of owners or zero"); if (ok_) for (i = 0; i < npr_; i++) ENSURE(procs[i] == own_[i], "owner handed back"); }
  ENSURE(ncall_ == 1, "done by one call");
  vs_reach("end"); return 0; }
