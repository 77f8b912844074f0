/* C07: patch kernels.  Real code: global/src/global.npatch.c */
#include "global/src/global.npatch.c"
#include "vs.h"
void pnga_error(char *s, Integer c) { (void)s; (void)c; ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
#define EXT VS_LIM(1L<<20, 6)
#define CAP VS_LIM(1L<<60, 4096)
#define vi(n, c, m) vs_ints(n, c, m, -1000, 1000)
#define vl(n, c, m) vs_longs(n, c, m, -1000000, 1000000)
static Integer lo_[MAXDIM], hi_[MAXDIM], ld_[MAXDIM], cnt_[MAXDIM], wit_[MAXDIM]; static int nd_;
static Integer irow_, off_, rows_, span_, size_, gap_;
/* a local block of an array with one arbitrary element of a patch that starts at the block's first element,
   and one arbitrary position of the block that lies outside the patch */
static void shape(void) {
  int j, g; Integer f = 1, out = 0;
  nd_ = (int)vs_case("ndim", 1, MAXDIM);
  rows_ = 1; irow_ = 0; off_ = 0; gap_ = 0; span_ = 0;
  for (j = 0; j < nd_; j++) {
    cnt_[j] = vs_long("count", 1, EXT);
    lo_[j] = vs_long("lo", 1, VS_LIM(1L<<40, 9)); hi_[j] = lo_[j] + cnt_[j] - 1;
    ld_[j] = j < nd_ - 1 ? vs_long("ld", cnt_[j], VS_LIM(1L<<30, 9)) : cnt_[j];
    wit_[j] = vs_witness("elem", 0, cnt_[j] - 1);
    off_ += wit_[j] * f; span_ += (cnt_[j] - 1) * f;
    if (j > 0) { irow_ += wit_[j] * rows_; rows_ *= cnt_[j]; }
    f *= ld_[j];
  }
  size_ = f;
}
/* ghosts: the data, the value the witness element must get, the value of the element behind the last one */
static int *gi_, wi_, ei_, oi_; static long *gl_, wl_, el_, ol_; static float *gf_, wf_, ef_, of_; static double *gd_, wd_, ed_, od_;
#define FILL(T, ARR, MT, L) { T *d = (T*)ARR("data", span_ + 2, CAP), *v = (T*)ARR("value", 1, 1), e = d[span_ + 1], w = v[0]; \
  g##L##_ = d; w##L##_ = w; e##L##_ = e; \
  snga_set_patch_value(MT, nd_, lo_, hi_, ld_, d, v); \
  ENSURE(d[off_] == w, "each element of the patch gets the value"); ENSURE(d[span_ + 1] == e, "nothing beyond the patch changes"); }
VS_ENTRY(vs_fillk) { shape();
  switch (vs_case("type", 0, 3)) {
  case 0: FILL(int, vi, C_INT, i) break;
  case 1: FILL(long, vl, C_LONG, l) break;
  case 2: FILL(float, vs_floats, C_FLOAT, f) break;
  case 3: FILL(double, vs_doubles, C_DBL, d) break;
  }
  vs_reach("end"); return 0; }

/* in place: every element of the patch is scaled exactly once */
#define SCALE(T, ARR, MT, L) { T *d = (T*)ARR("data", span_ + 2, CAP), *v = (T*)ARR("value", 1, 1), e = d[span_ + 1], x = d[off_], w = x * v[0]; \
  g##L##_ = d; w##L##_ = w; e##L##_ = e; o##L##_ = x; \
  snga_scale_patch_value(MT, nd_, lo_, hi_, ld_, d, v); \
  ENSURE(d[off_] == w, "each element of the patch is scaled once"); ENSURE(d[span_ + 1] == e, "nothing beyond the patch changes"); }
VS_ENTRY(vs_scalek) { shape();
  switch (vs_case("type", 0, 3)) {
  case 0: SCALE(int, vi, C_INT, i) break;
  case 1: SCALE(long, vl, C_LONG, l) break;
  case 2: SCALE(float, vs_floats, C_FLOAT, f) break;
  case 3: SCALE(double, vs_doubles, C_DBL, d) break;
  }
  vs_reach("end"); return 0; }
/* c = alpha * a + beta * b */
#define ADD(T, ARR, MT, L) { T *a = (T*)ARR("a", span_ + 1, CAP), *b = (T*)ARR("b", span_ + 1, CAP), *d = (T*)ARR("data", span_ + 2, CAP), *v = (T*)ARR("alpha", 1, 1), *u = (T*)ARR("beta", 1, 1), e = d[span_ + 1], x = a[off_], y = b[off_], w = v[0] * x + u[0] * y; \
  g##L##_ = d; w##L##_ = w; e##L##_ = e; o##L##_ = d[off_]; \
  snga_add_patch_values(MT, v, u, nd_, lo_, hi_, ld_, a, b, d); \
  ENSURE(d[off_] == w, "each element of the patch is the linear combination of its operands"); ENSURE(d[span_ + 1] == e, "nothing beyond the patch changes"); ENSURE(a[off_] == x && b[off_] == y, "the operands are unchanged"); }
VS_ENTRY(vs_addk) { shape();
  switch (vs_case("type", 0, 3)) {
  case 0: ADD(int, vi, C_INT, i) break;
  case 1: ADD(long, vl, C_LONG, l) break;
  case 2: ADD(float, vs_floats, C_FLOAT, f) break;
  case 3: ADD(double, vs_doubles, C_DBL, d) break;
  }
  vs_reach("end"); return 0; }
