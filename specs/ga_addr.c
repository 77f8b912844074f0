/* C14, C02: the element a one-element operation reaches.  Real code: global/src/onesided.c pnga_read_inc, pnga_access_ptr, pnga_access_idx
   and the addressing macros of base.h, on a block distribution.  Ownership (pnga_locate) and ARMCI_Rmw are by contract. */
#include "global/src/onesided.c"
#include "ga_world.h"
global_array_t *GA; proc_list_t *PGRP_LIST; int _max_global_array; Integer GAme, GAnproc; struct ga_stat_t GAstat; struct ga_bytes_t GAbytes;
static Integer own_, rank_, who_, sub_[MAXDIM], end_[MAXDIM], ld_[MAXDIM], calls_, inc_, op_, old_, at_; static char *home_, *ptr_;
static long c_[MAXDIM], blo_[MAXDIM], bhi_[MAXDIM], w_[MAXDIM];
#define PROCS VS_LIM(1L << 20, 4096)
void pnga_error(char *s, Integer c) { ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
void GA_Internal_Threadsafe_Lock(void) {}
void GA_Internal_Threadsafe_Unlock(void) {}
logical pnga_locate(Integer g, Integer *s, Integer *o) {
  int d; for (d = 0; d < vw_ndim; d++) REQUIRE(blo_[d] <= s[d] && s[d] <= bhi_[d]);
  *o = rank_; return TRUE; }
int armci_domain_id(armci_domain_t t, int p) { return 0; }
int armci_domain_my_id(armci_domain_t t) { return 0; }
int ARMCI_Rmw(int op, void *loc, void *rem, int v, int p) {
  ENSURE(op == op_, "the operation is that of the element type");
  ENSURE((char *)rem - home_ == at_, "the element is the one with the given subscript");
  ENSURE(v == inc_, "the increment is the one of the caller");
  ENSURE(p == who_, "the owner of the element is asked");
  calls_ = calls_ + 1;
  if (op_ == ARMCI_FETCH_AND_ADD) *(int *)loc = (int)old_; else *(long *)loc = old_;
  return 0; }
static int elem_;
static void place(void) {
  int d, grp; long at = 0, f = 1, off = 0, g = 1;
  vw_common(); vw_regular(1);
  grp = (int)vs_case("grp", -1, 2);   /* no group, the mirrored default group, another group, a restricted array */
  calls_ = 0; vga[0].num_rstrctd = 0;
  for (d = 0; d < vw_ndim; d++) {
    c_[d] = vs_long("c", 0, vga[0].nblock[d] - 1);
    blo_[d] = vga[0].mapc[at + c_[d]];
    if (c_[d] == vga[0].nblock[d] - 1) bhi_[d] = vga[0].dims[d]; else bhi_[d] = vga[0].mapc[at + c_[d] + 1] - 1;
    own_ = d ? own_ + f * c_[d] : c_[0];
    at += vga[0].nblock[d]; f *= vga[0].nblock[d];
    sub_[d] = vs_long("sub", blo_[d], bhi_[d]); end_[d] = vs_long("end", sub_[d], bhi_[d]);
    w_[d] = vs_long("width", 0, VS_LIM(1L << 20, 4)); vga[0].width[d] = w_[d];
    off += (sub_[d] - blo_[d] + w_[d]) * g; g *= bhi_[d] - blo_[d] + 1 + 2 * w_[d];
  }
  REQUIRE(f <= PROCS); GAnproc = PROCS; GAme = 0;
  vga[0].ptr = vs_ptrs("home", PROCS, 4096, vs_arena("mem"), VS_LIM(1L << 40, 8));
  vga[0].elemsize = elem_; at_ = elem_ * off;
  if (grp == 2) {
    vga[0].num_rstrctd = f; rank_ = vs_long("rank", 0, PROCS - 1);
    vga[0].rstrctd_list = vs_longs("list", f, 4096, 0, PROCS - 1); vga[0].rstrctd_list[own_] = rank_;
    vga[0].rank_rstrctd = vs_longs("pos", PROCS, 4096, 0, f - 1); vga[0].rank_rstrctd[rank_] = own_;
    who_ = rank_; home_ = vga[0].ptr[rank_];
  } else {
    rank_ = own_; who_ = own_; home_ = vga[0].ptr[own_];
    vga[0].p_handle = grp;
    if (grp >= 0) {
      PGRP_LIST[grp].inv_map_proc_list = vs_ints("inv", f, 4096, 0, PROCS - 1);
      PGRP_LIST[grp].map_proc_list = vs_ints("map", PROCS, 4096, -1, -1);
      who_ = PGRP_LIST[grp].inv_map_proc_list[own_];
      PGRP_LIST[grp].map_proc_list[who_] = (int)own_;
      if (grp == 0) home_ = vga[0].ptr[who_];
    }
  }
}
VS_ENTRY(vs_rdinc) {
  Integer r; int t = (int)vs_case("type", 0, 1);
  elem_ = t ? 8 : 4;
  place();
  vga[0].type = t ? C_LONG : C_INT; op_ = t ? ARMCI_FETCH_AND_ADD_LONG : ARMCI_FETCH_AND_ADD;
  inc_ = vs_int("inc", -2147483647L - 1, 2147483647L);
  old_ = t ? vs_long("old", -9223372036854775807L - 1, 9223372036854775807L) : vs_int("old", -2147483647L - 1, 2147483647L);
  r = pnga_read_inc(VGA, sub_, inc_);
  ENSURE(calls_ == 1, "one read and increment is done");
  ENSURE(r == old_, "the value before the increment is returned");
  vs_reach("end");
  return 0;
}
VS_ENTRY(vs_access) {
  int d; elem_ = 8;
  place();
  pnga_access_ptr(VGA, sub_, end_, &ptr_, ld_);
  ENSURE(ptr_ - home_ == at_, "the address is that of the first element");
  for (d = 0; d < vw_ndim; d++)
    if (d < vw_ndim - 1 || vw_ndim == 1) ENSURE(ld_[d] == bhi_[d] - blo_[d] + 1 + 2 * w_[d], "the leading dimensions are those of the block with its ghost cells");
  vs_reach("end");
  return 0;
}
