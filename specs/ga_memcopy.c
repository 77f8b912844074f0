/* C15: copying a section between two strided buffers (served from the list of cached reads).  Real code: global/src/onesided.c gai_mem_copy */
#include "global/src/onesided.c"
#include "vs.h"
#define CNT VS_LIM(1L<<10, 4)
#define MLD VS_LIM(1L<<10, 4)
static Integer cnt_[8], ss_[8], ds_[8], sst_[8], dst_[8], sld_[8], dld_[8]; static int wit_[8];
static long irow_, rows_, soff_, doff_, sneed_, dneed_, dbase_;
static char want_, old_, *D_;
VS_ENTRY(vs_memcopy) {
  int L = (int)vs_case("L", 0, 6), el = (int)vs_case("el", 1, 16), j; long b, sp = 1, dp = 1; char *src;
  rows_ = 1; irow_ = 0; soff_ = doff_ = 0; sneed_ = dneed_ = 0; dbase_ = 0;
  for (j = 0; j <= L; j++) {
    cnt_[j] = vs_long("count", 1, CNT); sld_[j] = vs_long("sld", cnt_[j], cnt_[j] + MLD); dld_[j] = vs_long("dld", cnt_[j], cnt_[j] + MLD);
    sst_[j] = vs_long("sstart", 0, sld_[j] - cnt_[j]); dst_[j] = vs_long("dstart", 0, dld_[j] - cnt_[j]); wit_[j] = vs_int("row", 0, cnt_[j] - 1);
    ss_[j] = sp * el; ds_[j] = dp * el;
    soff_ += (sst_[j] + wit_[j]) * ss_[j]; doff_ += (dst_[j] + wit_[j]) * ds_[j]; dbase_ += dst_[j] * ds_[j];
    sp *= sld_[j]; dp *= dld_[j];
    if (j) { irow_ += wit_[j] * rows_; rows_ *= cnt_[j]; }
  }
  sneed_ = sp * el; dneed_ = dp * el;
  b = vs_long("byte", 0, el - 1); soff_ += b; doff_ += b;
  src = vs_bytes("src", sneed_, VS_LIM(1L<<40, 1<<18)); D_ = vs_bytes("dst", dneed_ + 1, VS_LIM(1L<<40, 1<<18));
  want_ = src[soff_]; old_ = D_[dneed_];
  gai_mem_copy(el, L + 1, src, sst_, cnt_, sld_, D_, dst_, dld_);
  ENSURE(D_[doff_] == want_, "every byte of the section lands at its place in the destination");
  ENSURE(D_[dneed_] == old_, "nothing beyond the destination changes");
  ENSURE(src[soff_] == want_, "the source is unchanged");
  vs_reach("end");
  return 0;
}
