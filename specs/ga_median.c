/* C19: elementwise median kernel.  Real code: global/src/matrix.c */
#include "global/src/matrix.c"
#include "vs.h"
void pnga_error(char *s, Integer c) { (void)s; (void)c; ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
#define EXT VS_LIM(1L<<20, 6)
#define CAP VS_LIM(1L<<60, 4096)
#define vi(n, c, m) vs_ints(n, c, m, -1000, 1000)
#define vl(n, c, m) vs_longs(n, c, m, -1000000, 1000000)
static Integer lo_[MAXDIM], hi_[MAXDIM], ld_[MAXDIM], cnt_[MAXDIM], wit_[MAXDIM]; static int nd_;
static Integer irow_, off_, rows_, span_, size_, gap_, base_;
/* a local block of an array with one arbitrary element of a patch that starts at the block's first element,
   and one arbitrary position of the block that lies outside the patch */
static void shape(void) {
  int j, g; Integer f = 1, out = 0;
  nd_ = (int)vs_case("ndim", 1, MAXDIM);
  rows_ = 1; irow_ = 0; off_ = 0; gap_ = 0; span_ = 0;
  for (j = 0; j < nd_; j++) {
    cnt_[j] = vs_long("count", 1, EXT);
    lo_[j] = vs_long("lo", 1, VS_LIM(1L<<40, 9)); hi_[j] = lo_[j] + cnt_[j] - 1;
    ld_[j] = j < nd_ - 1 ? vs_long("ld", cnt_[j], VS_LIM(1L<<30, 9)) : cnt_[j];
    wit_[j] = vs_witness("elem", 0, cnt_[j] - 1);
    off_ += wit_[j] * f; span_ += (cnt_[j] - 1) * f;
    if (j > 0) { irow_ += wit_[j] * rows_; rows_ *= cnt_[j]; }
    f *= ld_[j];
  }
  size_ = f;
}
#define MAXV(a, b) ((a) >= (b) ? (a) : (b))
#define MINV(a, b) ((a) <= (b) ? (a) : (b))
/* ghosts: the result block, the value the witness element must get, its old value, the value behind the patch */
static int *gi_, wi_, ei_, oi_; static long *gl_, wl_, el_, ol_; static float *gf_, wf_, ef_, of_; static double *gd_, wd_, ed_, od_;
#define MED(T, ARR, MT, L) { T *a = (T*)ARR("a", base_ + span_ + 1, CAP), *b = (T*)ARR("b", base_ + span_ + 1, CAP), *c = (T*)ARR("c", base_ + span_ + 1, CAP), *d = (T*)ARR("data", base_ + span_ + 2, CAP), e = d[base_ + span_ + 1], x = a[off_], y = b[off_], z = c[off_], w = MAXV(MINV(x, y), MINV(MAXV(x, y), z)); \
  g##L##_ = d; w##L##_ = w; e##L##_ = e; o##L##_ = d[off_]; \
  sgai_median_patch_values(MT, nd_, lo_, hi_, ld_, a, b, c, d, base_); \
  ENSURE(d[off_] == w, "each element of the result is the median of its operands"); ENSURE(d[base_ + span_ + 1] == e, "nothing beyond the patch changes"); ENSURE(a[off_] == x && b[off_] == y && c[off_] == z, "the operands are unchanged"); }
VS_ENTRY(vs_medk) { shape(); base_ = vs_long("base", 0, VS_LIM(1L<<40, 20)); off_ += base_;
  switch (vs_case("type", 0, 3)) {
  case 0: MED(int, vi, C_INT, i) break;
  case 1: MED(long, vl, C_LONG, l) break;
  case 2: MED(float, vs_floats, C_FLOAT, f) break;
  case 3: MED(double, vs_doubles, C_DBL, d) break;
  }
  vs_reach("end"); return 0; }
