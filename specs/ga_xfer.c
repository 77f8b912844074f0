/* C03: put, get and accumulate of a patch hand every piece the iterator lists, once, to the transport with the right places, strides, counts and process.
   Real code: global/src/onesided.c pnga_put/pnga_nbput/pnga_get/pnga_nbget/pnga_acc/pnga_nbacc and what they call there.
   Contracts in place of other units: iterator.c (lists arbitrary pieces of the patch with the place and leading dimensions of each at its owner),
   ARMCI strided transfers (their preconditions are the obligations), nbutil.c handles. */
#include "global/src/onesided.c"
#include "vs.h"
#define EXT VS_LIM(1L<<40, 9)
#define NPIECE VS_LIM(1L<<30, 5)
#define NPROC VS_LIM(1L<<30, 6)
global_array_t *GA; proc_list_t *PGRP_LIST; int _max_global_array; Integer GAme, GAnproc; struct ga_stat_t GAstat; struct ga_bytes_t GAbytes;
static global_array_t xga_[1];
static Integer lo_[8], hi_[8], ld_[8], plo_[8], phi_[8], ldr_[8];
static long nd_, el_, op_, nb_, n_, cur_, w_, roff_, hits_, fset_, opt_, np_;
/* the handle of the request and the one of a single transfer, started or not, with the chosen piece pending on it or not */
static long starts_, livea_, liveb_, penda_, pendb_;
static int proc_, procw_, same_; static char *buf_, *rem_; static double alpha_[2]; static Integer user_; static armci_hdl_t aa_, ab_;
void gai_iterator_init(Integer g, Integer *lo, Integer *hi, _iterator_hdl *h) {
  int d; for (d = 0; d < nd_; d++) ENSURE(lo[d] == lo_[d] && hi[d] == hi_[d], "the pieces of the requested patch are listed");
  ENSURE(g == -GA_OFFSET, "the pieces of the given array are listed"); }
void gai_iterator_reset(_iterator_hdl *h) { cur_ = -1; }
int gai_iterator_next(_iterator_hdl *h, int *proc, Integer **plo, Integer **phi, char **prem, Integer *ldrem) {
  int d; if (cur_ >= n_ - 1) { cur_ = n_; return 0; }
  cur_ = cur_ + 1;
  for (d = 0; d < nd_; d++) { plo_[d] = vs_long("plo", lo_[d], hi_[d]); phi_[d] = vs_long("phi", plo_[d], hi_[d]); ldr_[d] = vs_long("ldrem", 1, EXT); ldrem[d] = ldr_[d]; }
  if (cur_ == w_) proc_ = procw_; else proc_ = vs_int("proc", 0, np_ - 1);
  roff_ = vs_long("roff", 0, VS_LIM(1L<<40, 1000));
  *proc = proc_; *plo = plo_; *phi = phi_; *prem = rem_ + roff_; return 1; }
int gai_iterator_last(_iterator_hdl *h) { return cur_ == n_ - 1; }
void gai_iterator_destroy(_iterator_hdl *h) {}
int armci_domain_same_id(armci_domain_t t, int p) { if (p == procw_) return same_; return vs_int("same", 0, 1); }
void ga_init_nbhandle(Integer *h) {
  if (!starts_) { ENSURE(!nb_ || h == &user_, "the handle of the caller is started"); starts_ = 1; *h = 101; livea_ = 1; penda_ = 0; }
  else { ENSURE(!liveb_, "one transfer at a time has a handle of its own"); *h = 102; liveb_ = 1; pendb_ = 0; } }
armci_hdl_t *get_armci_nbhandle(Integer *h) {
  ENSURE(*h == 101 && livea_ || *h == 102 && liveb_, "the operation is attached to a handle that was started");
  return *h == 101 ? &aa_ : &ab_; }
int nga_wait_internal(Integer *h) {
  ENSURE(*h == 101 && livea_ || *h == 102 && liveb_, "the handle that is waited for was started");
  if (*h == 101) { livea_ = 0; penda_ = 0; } else { liveb_ = 0; pendb_ = 0; } return 0; }
void GA_Internal_Threadsafe_Lock(void) {}
void GA_Internal_Threadsafe_Unlock(void) {}
void pnga_error(char *s, Integer v) { vs_abort(); }
void wnga_error(char *s, Integer v) { vs_abort(); }
static int moved(int op, char *loc, int *sl, char *rem, int *sr, int *count, int levels, int p, armci_hdl_t *h) {
  int d; long off = 0, f = el_, g = el_;
  ENSURE(op_ == op, "the transport operation is that of the request");
  ENSURE(levels == nd_ - 1, "one stride level less than dimensions");
  ENSURE(p == proc_, "the piece goes to its owner");
  ENSURE(rem - rem_ == roff_, "the remote place is that of the piece");
  for (d = 0; d < nd_; d++) {
    off += (plo_[d] - lo_[d]) * f;
    if (d == 0) ENSURE(count[0] == (phi_[0] - plo_[0] + 1) * el_, "the first count is the bytes of a row");
    else ENSURE(count[d] == phi_[d] - plo_[d] + 1, "the counts are the extents of the piece");
    if (d < nd_ - 1) {
      f *= ld_[d]; g *= ldr_[d];
      ENSURE(sl[d] == f, "the local strides follow the leading dimensions of the buffer");
      ENSURE(sr[d] == g, "the remote strides follow the leading dimensions at the owner");
    }
  }
  ENSURE(loc - buf_ == off, "the piece has its place in the buffer");
  ENSURE(!nb_ || h == &aa_, "a non-blocking request does not block and runs on the handle of the caller");
  ENSURE(!h || h == &aa_ && livea_ || h == &ab_ && liveb_, "nothing is started on a handle after its wait");
  if (cur_ == w_) { hits_ = hits_ + 1; if (h == &aa_) penda_ = 1; if (h == &ab_) pendb_ = 1; }
  return 0; }
int ARMCI_PutS(void *s, int *ss, void *d, int *ds, int *c, int l, int p) { return moved(0, s, ss, d, ds, c, l, p, 0); }
int ARMCI_NbPutS(void *s, int *ss, void *d, int *ds, int *c, int l, int p, armci_hdl_t *h) { return moved(0, s, ss, d, ds, c, l, p, h); }
int ARMCI_GetS(void *s, int *ss, void *d, int *ds, int *c, int l, int p) { return moved(1, d, ds, s, ss, c, l, p, 0); }
int ARMCI_NbGetS(void *s, int *ss, void *d, int *ds, int *c, int l, int p, armci_hdl_t *h) { return moved(1, d, ds, s, ss, c, l, p, h); }
static void accop(int o, void *a) { ENSURE(o == opt_, "the accumulate operation is that of the element type"); ENSURE(a == (void *)alpha_, "the scale factor is passed on"); }
int ARMCI_AccS(int o, void *a, void *s, int *ss, void *d, int *ds, int *c, int l, int p) { accop(o, a); return moved(2, s, ss, d, ds, c, l, p, 0); }
int ARMCI_NbAccS(int o, void *a, void *s, int *ss, void *d, int *ds, int *c, int l, int p, armci_hdl_t *h) { accop(o, a); return moved(2, s, ss, d, ds, c, l, p, h); }
VS_ENTRY(vs_xfer) {
  int d, t; long cap = 1;
  nd_ = vs_case("ndim", 1, 7); op_ = vs_case("op", 0, 2); nb_ = vs_case("nb", 0, 1); t = (int)vs_case("type", 0, 5);
  hits_ = livea_ = liveb_ = penda_ = pendb_ = 0; starts_ = 0; user_ = -1; cur_ = 0;
  el_ = t == 0 || t == 2 ? 4 : t == 1 || t == 3 || t == 4 ? 8 : 16;
  for (d = 0; d < nd_; d++) { lo_[d] = vs_long("lo", 1, EXT); hi_[d] = vs_long("hi", lo_[d], lo_[d] + EXT); ld_[d] = vs_long("ld", hi_[d] - lo_[d] + 1, hi_[d] - lo_[d] + 1 + EXT); }
  n_ = vs_long("pieces", 1, NPIECE); w_ = vs_long("piece", 0, n_ - 1); np_ = vs_long("np", 1, NPROC); procw_ = vs_int("procw", 0, np_ - 1); same_ = vs_int("samew", 0, 1);
  buf_ = vs_bytes("buf", 1, 1); rem_ = vs_bytes("rem", 1, 1);
  GA = xga_; _max_global_array = 1; xga_[0].actv = 1; xga_[0].actv_handle = 1; xga_[0].ndim = nd_; xga_[0].elemsize = el_; xga_[0].p_handle = -1; xga_[0].num_rstrctd = 0; xga_[0].property = NO_PROPERTY;
  xga_[0].type = t == 0 ? C_INT : t == 1 ? C_LONG : t == 2 ? C_FLOAT : t == 3 ? C_DBL : t == 4 ? C_SCPL : C_DCPL;
  opt_ = t == 0 ? ARMCI_ACC_INT : t == 1 ? ARMCI_ACC_LNG : t == 2 ? ARMCI_ACC_FLT : t == 3 ? ARMCI_ACC_DBL : t == 4 ? ARMCI_ACC_CPL : ARMCI_ACC_DCP;
  GAnproc = np_; GAme = 0; fence_array = vs_bytes("fence", np_, 8); fset_ = vs_int("fset", 0, 1); GA_fence_set = (int)fset_;
  if (op_ == 0 && !nb_) pnga_put(-GA_OFFSET, lo_, hi_, buf_, ld_);
  if (op_ == 0 && nb_) pnga_nbput(-GA_OFFSET, lo_, hi_, buf_, ld_, &user_);
  if (op_ == 1 && !nb_) pnga_get(-GA_OFFSET, lo_, hi_, buf_, ld_);
  if (op_ == 1 && nb_) pnga_nbget(-GA_OFFSET, lo_, hi_, buf_, ld_, &user_);
  if (op_ == 2 && !nb_) pnga_acc(-GA_OFFSET, lo_, hi_, buf_, ld_, alpha_);
  if (op_ == 2 && nb_) pnga_nbacc(-GA_OFFSET, lo_, hi_, buf_, ld_, alpha_, &user_);
  ENSURE(hits_ == 1, "every piece is transferred exactly once");
  ENSURE(!pendb_ && (nb_ || !penda_), "a blocking request waits for everything it started");
  ENSURE(!nb_ || livea_, "the handle of a non-blocking request is left to its caller");
  ENSURE(op_ == 1 || !fset_ || fence_array[procw_] == 1, "a fence knows every process that was written to");
  vs_reach("end");
  return 0;
}
