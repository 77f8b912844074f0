/* C03: what the iterator lists.  Real code: global/src/iterator.c gai_iterator_next and the addressing macros of base.h.
   The list of pieces itself (pnga_locate_region) is by contract: piece p_ lies in the block of its owner. */
#include "global/src/iterator.c"
#include "ga_world.h"
global_array_t *GA; proc_list_t *PGRP_LIST; int _max_global_array; Integer GAme, GAnproc;
static Integer np_, idx_, p_, own_, rank_, who_, ldr_[MAXDIM], *plo_, *phi_; static char *rem_, *home_; static int proc_;
static long c_[MAXDIM], blo_[MAXDIM], bhi_[MAXDIM], lo_[MAXDIM], hi_[MAXDIM], w_[MAXDIM], ext_[MAXDIM];
static _iterator_hdl h_;
#define PIECES VS_LIM(1L << 20, 5)
#define PROCS VS_LIM(1L << 20, 4096)
void pnga_error(char *s, Integer c) { ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
Integer pnga_pgroup_nnodes(Integer g) { return GAnproc; }
VS_ENTRY(vs_next) {
  int d, r, grp; long at = 0, f = 1, off = 0, g = 1, nel = 1, nb = 1;
  vw_common(); vw_regular(1);
  grp = (int)vs_case("grp", -1, 2);   /* no group, the mirrored default group, another group, a restricted array */
  vga[0].elemsize = 8;
  for (d = 0; d < vw_ndim; d++) {
    c_[d] = vs_long("c", 0, vga[0].nblock[d] - 1);
    blo_[d] = vga[0].mapc[at + c_[d]];
    if (c_[d] == vga[0].nblock[d] - 1) bhi_[d] = vga[0].dims[d]; else bhi_[d] = vga[0].mapc[at + c_[d] + 1] - 1;
    own_ = d ? own_ + f * c_[d] : c_[0];
    at += vga[0].nblock[d]; f *= vga[0].nblock[d];
    lo_[d] = vs_long("lo", blo_[d], bhi_[d]); ext_[d] = vs_long("ext", 1, bhi_[d] - lo_[d] + 1); hi_[d] = lo_[d] + ext_[d] - 1;
    nel *= ext_[d];
    w_[d] = vs_long("width", 0, VS_LIM(1L << 20, 4)); vga[0].width[d] = w_[d];
    off += (lo_[d] - blo_[d] + w_[d]) * g; g *= bhi_[d] - blo_[d] + 1 + 2 * w_[d];
  }
  nb = f;
  REQUIRE(nb <= PROCS); GAnproc = nb;
  REQUIRE(8 * nel <= 2147483647L);
  np_ = vs_long("pieces", 1, PIECES); idx_ = vs_long("index", 0, np_ - 1);
  h_.proclistperm = vs_ints("perm", np_, 5, 0, np_ - 1); p_ = h_.proclistperm[idx_];
  h_.g_a = VGA; h_.count = idx_; h_.nproc = np_; h_.oversize = 0;
  h_.map = vs_longs("map", 2 * vw_ndim * np_, 100, -9, -9); h_.proclist = vs_longs("who", np_, 5, -9, -9);
  for (d = 0; d < vw_ndim; d++) { h_.map[2 * vw_ndim * p_ + d] = lo_[d]; h_.map[2 * vw_ndim * p_ + vw_ndim + d] = hi_[d]; }
  vga[0].ptr = vs_ptrs("home", PROCS, 4096, vs_arena("mem"), VS_LIM(1L << 40, 8));
  if (grp == 2) {
    vga[0].num_rstrctd = nb; rank_ = vs_long("rank", 0, PROCS - 1);
    vga[0].rstrctd_list = vs_longs("list", nb, 4096, 0, PROCS - 1); vga[0].rstrctd_list[own_] = rank_;
    vga[0].rank_rstrctd = vs_longs("pos", PROCS, 4096, 0, nb - 1); vga[0].rank_rstrctd[rank_] = own_;
    h_.proclist[p_] = rank_; who_ = rank_; home_ = vga[0].ptr[rank_];
  } else {
    h_.proclist[p_] = own_; who_ = own_; home_ = vga[0].ptr[own_];
    vga[0].p_handle = grp;
    if (grp >= 0) {
      PGRP_LIST[grp].inv_map_proc_list = vs_ints("inv", nb, 4096, 0, PROCS - 1);
      who_ = PGRP_LIST[grp].inv_map_proc_list[own_];
      if (grp == 0) home_ = vga[0].ptr[who_];
    }
  }
  r = gai_iterator_next(&h_, &proc_, &plo_, &phi_, &rem_, ldr_);
  ENSURE(r == 1, "a listed piece is returned");
  ENSURE(h_.count == idx_ + 1, "and the next one comes after it");
  ENSURE(h_.oversize == 0, "a piece that the transport can carry is not divided");
  ENSURE(proc_ == who_, "the piece belongs to its owner");
  for (d = 0; d < vw_ndim; d++) {
    ENSURE(plo_[d] == lo_[d] && phi_[d] == hi_[d], "the piece is the listed one");
    if (d < vw_ndim - 1 || vw_ndim == 1) ENSURE(ldr_[d] == bhi_[d] - blo_[d] + 1 + 2 * w_[d], "the leading dimensions are those of the block with its ghost cells");
  }
  ENSURE(rem_ == home_ + 8 * off, "the place is that of the first element in the memory of the owner");
  h_.count = np_;
  ENSURE(!gai_iterator_next(&h_, &proc_, &plo_, &phi_, &rem_, ldr_), "the list ends after its last piece");
  ENSURE(h_.count == np_, "and stays there");
  vs_reach("end");
  return 0;
}
