/* C01: ownership.  Real code: global/src/base.c (pnga_locate, pnga_distribution, ...) */
#include "global/src/base.c"
#include "ga_world.h"

void pnga_error(char *s, Integer c) { (void)s; (void)c; ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }

static Integer sub_[MAXDIM], lo_[MAXDIM], hi_[MAXDIM], own_;

static void world(void) {
  int dt = (int)vs_case("dist", 0, 4);
  vw_common();
  if (dt == REGULAR) vw_regular(0);
  else if (dt == TILED_IRREG) vw_tiled_irreg(0);
  else vw_blocked(dt);
}
static void est(Integer *e) {
  int d;
  if (vga[0].distr_type == REGULAR || vga[0].distr_type == TILED_IRREG)
    for (d = 0; d < vw_ndim; d++) vw_scale_ok(d, e[d], vga[0].distr_type == REGULAR ? vga[0].nblock[d] : (int)vga[0].num_blocks[d]);
}

/* every valid subscript has an owner, and the owner's block contains it */
VS_ENTRY(vs_locate) {
  int d; logical r;
  world();
  for (d = 0; d < vw_ndim; d++) sub_[d] = vs_long("sub", 1, vga[0].dims[d]);
  est(sub_);
  r = pnga_locate(VGA, sub_, &own_);
  ENSURE(r == TRUE, "a valid subscript is located");
  ENSURE(0 <= own_ && own_ < vw_nblocks(), "the owner is one of the blocks");
  pnga_distribution(VGA, own_, lo_, hi_);
  for (d = 0; d < vw_ndim; d++) {
    ENSURE(lo_[d] <= sub_[d], "the owner's block starts at or before the subscript");
    ENSURE(sub_[d] <= hi_[d], "the owner's block ends at or after the subscript");
  }
  vs_reach("end");
  return 0;
}

/* the blocks listed for a patch tile the patch: every element of the patch lies in exactly one listed piece, which
   belongs to the element's owner; every piece lies within the patch and within its block */
static Integer plo_[MAXDIM], phi_[MAXDIM], map_[VS_BOUND(1, 2 * MAXDIM * 4096)], who_[VS_BOUND(1, 4096)], np_, nn_;
VS_ENTRY(vs_region) {
  int d, k, hits = 0, in; Integer j;
  world();
  GAnproc = 4;
  REQUIRE(vw_nblocks() <= 4096);
  for (d = 0; d < vw_ndim; d++) {
    plo_[d] = vs_long("lo", 1, vga[0].dims[d]);
    phi_[d] = vs_long("hi", plo_[d], vga[0].dims[d]);
    sub_[d] = vs_long("sub", plo_[d], phi_[d]);
  }
  est(plo_); est(phi_); est(sub_);
  ENSURE(pnga_locate(VGA, sub_, &own_) == TRUE, "a valid subscript is located");
  ENSURE(pnga_locate_region(VGA, plo_, phi_, map_, who_, &np_) == TRUE, "the patch is located");
  ENSURE(pnga_locate_nnodes(VGA, plo_, phi_, &nn_) == TRUE, "the patch is counted");
  ENSURE(nn_ == np_, "as many blocks are counted as are listed");
  if (vga[0].distr_type != REGULAR)
    ENSURE(pnga_locate_num_blocks(VGA, plo_, phi_) == np_, "the number of blocks of a patch is the length of its list");
  for (k = 0; k < np_; k++) {
    Integer *m = map_ + 2 * vw_ndim * k;
    ENSURE(0 <= who_[k] && who_[k] < vw_nblocks(), "every listed block exists");
    pnga_distribution(VGA, who_[k], lo_, hi_);
    for (d = 0, in = 1; d < vw_ndim; d++) {
      ENSURE(m[d] == (plo_[d] > lo_[d] ? plo_[d] : lo_[d]) && m[vw_ndim + d] == (phi_[d] < hi_[d] ? phi_[d] : hi_[d]), "a listed piece is the intersection of the patch with its block");
      in = in && m[d] <= sub_[d] && sub_[d] <= m[vw_ndim + d];
    }
    if (in) { hits++; ENSURE(who_[k] == own_, "an element lies only in a piece of its owner"); }
  }
  ENSURE(hits == 1, "every element of the patch lies in exactly one piece");
  vs_reach("end");
  return 0;
}

/* the list of pieces, position by position: the block with coordinates bW (between those of the corners) is at the position its
   coordinates say; every position arises this way, so this describes the whole list.  The buffers have exactly the size needed. */
static Integer bT_[MAXDIM], bB_[MAXDIM], bW_[MAXDIM], ml_[MAXDIM], mh_[MAXDIM], kw_, pw_, tot_, *mp_, *wp_, un_[MAXDIM];
static void coord(Integer *b, const char *nm, Integer *e, int start[]) {
  int d;
  for (d = 0; d < vw_ndim; d++) {
    int n = vga[0].distr_type == REGULAR ? vga[0].nblock[d] : (int)vga[0].num_blocks[d];
#ifdef VS_NATIVE
    Integer v; (void)nm;
    if (vga[0].distr_type == REGULAR || vga[0].distr_type == TILED_IRREG) { for (v = n - 1; v > 0 && vga[0].mapc[start[d] + v] > e[d]; v--) ; }
    else v = (e[d] - 1) / vga[0].block_dims[d];
    b[d] = v;
#else
    b[d] = vs_long(nm, 0, VNB); REQUIRE(b[d] < n);
    if (vga[0].distr_type == REGULAR || vga[0].distr_type == TILED_IRREG) {
      REQUIRE(vga[0].mapc[start[d] + b[d]] <= e[d]);
      if (b[d] < n - 1) REQUIRE(e[d] < vga[0].mapc[start[d] + b[d] + 1]);
    } else { REQUIRE(b[d] * vga[0].block_dims[d] < e[d]); REQUIRE(e[d] <= (b[d] + 1) * vga[0].block_dims[d]); }
#endif
  }
}
VS_ENTRY(vs_pieces) {
  int d, nb[MAXDIM], st[MAXDIM], s = 0; Integer f = 1;
  world();
  GAnproc = 4;
  for (d = 0; d < vw_ndim; d++) {
    plo_[d] = vs_long("lo", 1, vga[0].dims[d]);
    phi_[d] = vs_long("hi", plo_[d], vga[0].dims[d]);
    nb[d] = vga[0].distr_type == REGULAR ? vga[0].nblock[d] : (int)vga[0].num_blocks[d]; st[d] = s; s += nb[d];
  }
  est(plo_); est(phi_);
  coord(bT_, "bT", plo_, st); coord(bB_, "bB", phi_, st);
  kw_ = 0; pw_ = 0; tot_ = 1;
  for (d = 0; d < vw_ndim; d++) {
    Integer lo, hi;
    REQUIRE(bT_[d] <= bB_[d]);
    bW_[d] = vs_witness("bW", 0, VNB); REQUIRE(bT_[d] <= bW_[d]); REQUIRE(bW_[d] <= bB_[d]);
    kw_ += (bW_[d] - bT_[d]) * tot_; un_[d] = tot_; tot_ *= bB_[d] - bT_[d] + 1;
    pw_ += bW_[d] * f; f *= nb[d];
    if (vga[0].distr_type == REGULAR || vga[0].distr_type == TILED_IRREG) { lo = vga[0].mapc[st[d] + bW_[d]]; hi = bW_[d] == nb[d] - 1 ? vga[0].dims[d] : vga[0].mapc[st[d] + bW_[d] + 1] - 1; }
    else { lo = bW_[d] * vga[0].block_dims[d] + 1; hi = (bW_[d] + 1) * vga[0].block_dims[d]; if (hi > vga[0].dims[d]) hi = vga[0].dims[d]; }
    ml_[d] = lo > plo_[d] ? lo : plo_[d]; mh_[d] = hi < phi_[d] ? hi : phi_[d];
  }
  mp_ = vs_longs("map", 2 * vw_ndim * tot_, VS_LIM(1L << 60, 100000), -9, -9); wp_ = vs_longs("who", tot_, VS_LIM(1L << 60, 100000), -9, -9);
  ENSURE(pnga_locate_region(VGA, plo_, phi_, mp_, wp_, &np_) == TRUE, "the patch is located");
  ENSURE(np_ == tot_, "the list has one piece for every block between the blocks of the corners");
  ENSURE(wp_[kw_] == pw_, "a piece belongs to the block at its position");
  for (d = 0; d < vw_ndim; d++) {
    ENSURE(mp_[2 * vw_ndim * kw_ + d] == ml_[d], "a piece starts where the patch and the block both have started");
    ENSURE(mp_[2 * vw_ndim * kw_ + vw_ndim + d] == mh_[d], "a piece ends where the patch or the block ends");
  }
  vs_reach("end");
  return 0;
}
/* the number of pieces is reported without listing them */
VS_ENTRY(vs_npieces) {
  int d, st[MAXDIM], s = 0;
  world();
  GAnproc = 4;
  for (d = 0; d < vw_ndim; d++) {
    plo_[d] = vs_long("lo", 1, vga[0].dims[d]);
    phi_[d] = vs_long("hi", plo_[d], vga[0].dims[d]);
    st[d] = s; s += vga[0].distr_type == REGULAR ? vga[0].nblock[d] : (int)vga[0].num_blocks[d];
  }
  est(plo_); est(phi_);
  coord(bT_, "bT", plo_, st); coord(bB_, "bB", phi_, st);
  tot_ = 1;
  for (d = 0; d < vw_ndim; d++) tot_ *= bB_[d] - bT_[d] + 1;
  ENSURE(pnga_locate_nnodes(VGA, plo_, phi_, &nn_) == TRUE, "the patch is counted");
  ENSURE(nn_ == tot_, "the number of blocks of a patch is the product over the dimensions");
  if (vga[0].distr_type != REGULAR) ENSURE(pnga_locate_num_blocks(VGA, plo_, phi_) == tot_, "the number of blocks of a patch is the product over the dimensions");
  vs_reach("end");
  return 0;
}
/* blocks are disjoint: a block that contains a subscript is the subscript's owner */
VS_ENTRY(vs_unique) {
  int d; Integer p;
  world();
  p = vs_long("block", 0, VS_LIM(1L << 60, 4096));
  REQUIRE(p < vw_nblocks());
  pnga_distribution(VGA, p, lo_, hi_);
  for (d = 0; d < vw_ndim; d++) {
    sub_[d] = vs_long("sub", 1, vga[0].dims[d]);
    REQUIRE(lo_[d] <= sub_[d] && sub_[d] <= hi_[d]);
  }
  est(sub_);
  ENSURE(pnga_locate(VGA, sub_, &own_) == TRUE, "a valid subscript is located");
  ENSURE(own_ == p, "a block that contains an element is the element's owner");
  vs_reach("end");
  return 0;
}
/* a subscript outside the array has no owner */
VS_ENTRY(vs_outside) {
  int d, bad;
  world();
  bad = (int)vs_long("bad", 0, vw_ndim - 1);
  for (d = 0; d < vw_ndim; d++) sub_[d] = vs_long("sub", -VDIM, 2 * VDIM);
  REQUIRE(sub_[bad] < 1 || sub_[bad] > vga[0].dims[bad]);
  ENSURE(pnga_locate(VGA, sub_, &own_) == FALSE, "a subscript outside the array has no owner");
  vs_reach("end");
  return 0;
}
/* process grid queries: coordinates and rank are inverse to each other */
VS_ENTRY(vs_topology) {
  int d; Integer p, q = 0, f = 1, c_[MAXDIM], g_[MAXDIM];
  world();
  p = vs_long("proc", 0, VS_LIM(1L << 60, 4096));
  pnga_get_proc_grid(VGA, g_);
  for (d = 0; d < vw_ndim; d++) { ENSURE(g_[d] == vga[0].nblock[d], "the process grid is the one the array was created with"); f *= g_[d]; }
  REQUIRE(p < f);
  pnga_proc_topology(VGA, p, c_);
  for (d = vw_ndim - 1; d >= 0; d--) {
    ENSURE(0 <= c_[d] && c_[d] < g_[d], "process coordinates lie in the process grid");
    q = q * g_[d] + c_[d];
  }
  ENSURE(q == p, "process coordinates determine the process");
  if (vga[0].distr_type != REGULAR && vga[0].distr_type != BLOCK_CYCLIC) {
    Integer i_[MAXDIM];
    pnga_get_proc_index(VGA, p, i_);
    for (d = 0; d < vw_ndim; d++) ENSURE(i_[d] == c_[d], "both coordinate queries agree");
  }
  vs_reach("end");
  return 0;
}
