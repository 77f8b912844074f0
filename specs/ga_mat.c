/* C19: diagonal and scaling kernels.  Real code: global/src/matrix.c */
#include "global/src/matrix.c"
#include "vs.h"
void pnga_error(char *s, Integer c) { (void)s; (void)c; ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
#define EXT VS_LIM(1L<<20, 9)
#define CAP VS_LIM(1L<<60, 4096)
#define vi(n, c, m) vs_ints(n, c, m, -1000, 1000)
#define vl(n, c, m) vs_longs(n, c, m, -1000000, 1000000)
static Integer lo_[2], hi_[2], ld_, r_, c_, off_, d0_, n_, k_; static int diag_, in_;
/* ghosts: the memory of the block, the element at (r, c) before and after, the vector operand and its element for (r, c) */
static int *gi_, wi_, oi_, vi_; static long *gl_, wl_, ol_, vl_; static float *gf_, wf_, of_, vf_, wf2_, of2_, vf2_; static double *gd_, wd_, od_, vd_, wd2_, od2_, vd2_; static SingleComplex *gc_; static DoubleComplex *gz_;
static int t_, gets_, puts_; static Integer vlo_, vhi_, e_;
static const int ES[] = { 4, 8, 4, 8, 8, 16 };
Integer GAsizeof(Integer type) { (void)type; return ES[t_]; }
/* a local block of a matrix inside of columns of length ld, and one arbitrary position (row r, column c) of its memory;
   the diagonal elements of the block are n, the first one is (d0, d0), and (r, c) is the k-th of them or none */
static Integer cols_;
static void shape(void) {
  Integer rows = vs_long("rows", 1, EXT), cols = vs_long("cols", 1, EXT);
  gets_ = puts_ = 0; t_ = (int)vs_case("type", 0, 5); cols_ = cols;
  lo_[0] = vs_long("lo", 1, VS_LIM(1L<<40, 12)); lo_[1] = vs_long("lo", 1, VS_LIM(1L<<40, 12)); hi_[0] = lo_[0] + rows - 1; hi_[1] = lo_[1] + cols - 1;
  ld_ = vs_long("ld", rows, VS_LIM(1L<<30, 12)); r_ = vs_witness("row", 0, ld_ - 1); c_ = vs_witness("col", 0, cols - 1); off_ = c_ * ld_ + r_;
  diag_ = r_ < rows && lo_[0] + r_ == lo_[1] + c_; in_ = r_ < rows;
  d0_ = lo_[0] > lo_[1] ? lo_[0] : lo_[1]; n_ = (hi_[0] < hi_[1] ? hi_[0] : hi_[1]) - d0_ + 1; k_ = diag_ ? lo_[0] + r_ - d0_ : -1;
}
static void diagvec(void) { vlo_ = d0_; vhi_ = d0_ + n_ - 1; e_ = k_; }
/* contract of the vector access: the subscripts are those of the elements needed; the element for the witness position is delivered (arrives) */
static char *vec_;
void pnga_release_update(Integer g, Integer *lo, Integer *hi) { (void)g; (void)lo; (void)hi; }
static void vecrange(Integer *lo, Integer *hi) { ENSURE(lo[0] == vlo_ && hi[0] == vhi_, "the vector elements used are those of the diagonal, row or column"); }
#define NEED (e_ >= 0 && e_ <= vhi_ - vlo_)
void pnga_get(Integer g, Integer *lo, Integer *hi, void *buf, Integer *ld) {
  (void)g; (void)ld; gets_++; vecrange(lo, hi);
#ifdef VS_NATIVE
  memcpy(buf, vec_ + (lo[0] - vlo_) * ES[t_], (hi[0] - lo[0] + 1) * ES[t_]);
#else
  if (NEED) switch (t_) {
  case 0: REQUIRE(((int*)buf)[e_] == vi_); break; case 1: REQUIRE(((long*)buf)[e_] == vl_); break; case 2: REQUIRE(((float*)buf)[e_] == vf_); break; case 3: REQUIRE(((double*)buf)[e_] == vd_); break;
  case 4: REQUIRE(((SingleComplex*)buf)[e_].real == vf_); REQUIRE(((SingleComplex*)buf)[e_].imag == vf2_); break;
  case 5: REQUIRE(((DoubleComplex*)buf)[e_].real == vd_); REQUIRE(((DoubleComplex*)buf)[e_].imag == vd2_); break; }
#endif
}
void pnga_put(Integer g, Integer *lo, Integer *hi, void *buf, Integer *ld) {
  (void)g; (void)ld; puts_++; vecrange(lo, hi);
  if (NEED) switch (t_) {
#define GOT "the vector gets the elements of the diagonal"
  case 0: ENSURE(((int*)buf)[e_] == oi_, GOT); break; case 1: ENSURE(((long*)buf)[e_] == ol_, GOT); break; case 2: ENSURE(((float*)buf)[e_] == of_, GOT); break; case 3: ENSURE(((double*)buf)[e_] == od_, GOT); break;
  case 4: ENSURE(((SingleComplex*)buf)[e_].real == of_ && ((SingleComplex*)buf)[e_].imag == of2_, GOT); break;
  case 5: ENSURE(((DoubleComplex*)buf)[e_].real == od_ && ((DoubleComplex*)buf)[e_].imag == od2_, GOT); break; }
}
#define SIZE (cols_ * ld_)
#define VLEN (vhi_ - vlo_ + 1 < 1 ? 1 : vhi_ - vlo_ + 1)
/* real types: x the old element, v the vector's (or scalar's) element; WHERE the positions that change, WANT their new value */
#define RUN(T, ARR, MT, L, VN, CALL, WHERE, WANT, MSG) { T *d = (T*)ARR("data", SIZE, CAP), *v = (T*)ARR("vector", VN, CAP), x = d[off_], y = NEED ? v[e_] : v[0]; (void)y; vec_ = (char*)v; \
  g##L##_ = d; o##L##_ = x; v##L##_ = y; w##L##_ = (WANT); CALL(d, v, MT); ENSURE(d[off_] == ((WHERE) ? w##L##_ : x), MSG); }
#define RUNC(T, E, DBL, MT, L, F, VN, CALL, WHERE, WRE, WIM, MSG) { T proto; T *d = vs_cpls("data", SIZE, CAP, &proto, DBL), *v = vs_cpls("vector", VN, CAP, &proto, DBL); Integer q = NEED ? e_ : 0; E xr = d[off_].real, xi = d[off_].imag, yr = v[q].real, yi = v[q].imag; (void)yr; (void)yi; vec_ = (char*)v; \
  g##L##_ = d; o##F##_ = xr; o##F##2_ = xi; v##F##_ = yr; v##F##2_ = yi; w##F##_ = (WRE); w##F##2_ = (WIM); CALL(d, v, MT); \
  ENSURE(d[off_].real == ((WHERE) ? w##F##_ : xr), MSG); ENSURE(d[off_].imag == ((WHERE) ? w##F##2_ : xi), MSG); }
#define ALL(VN, CALL, WHERE, WANT, WRE, WIM, MSG) switch (t_) { \
  case 0: RUN(int, vi, C_INT, i, VN, CALL, WHERE, WANT, MSG) break; \
  case 1: RUN(long, vl, C_LONG, l, VN, CALL, WHERE, WANT, MSG) break; \
  case 2: RUN(float, vs_floats, C_FLOAT, f, VN, CALL, WHERE, WANT, MSG) break; \
  case 3: RUN(double, vs_doubles, C_DBL, d, VN, CALL, WHERE, WANT, MSG) break; \
  case 4: RUNC(SingleComplex, float, 0, C_SCPL, c, f, VN, CALL, WHERE, WRE, WIM, MSG) break; \
  case 5: RUNC(DoubleComplex, double, 1, C_DCPL, z, d, VN, CALL, WHERE, WRE, WIM, MSG) break; }
#define C_SHIFT(d, v, mt) sgai_shift_diagonal_block(0, d, lo_, hi_, ld_, v, mt)
#define C_ZERO(d, v, mt) { Integer l[2], h[2]; l[0] = l[1] = d0_; h[0] = h[1] = d0_ + n_ - 1; if (n_ > 0) sgai_zero_diagonal_block(0, d, l, h, ld_, ld_ * (d0_ - lo_[1]) + d0_ - lo_[0], mt); }
#define C_SET(d, v, mt) { sgai_set_diagonal_block(0, d, 1, lo_, hi_, ld_, mt); ENSURE(gets_ == (n_ > 0), "the vector is read once"); }
#define C_ADD(d, v, mt) { sgai_add_diagonal_block(0, d, 1, lo_, hi_, ld_, mt); ENSURE(gets_ == (n_ > 0), "the vector is read once"); }
#define C_GET(d, v, mt) { sgai_get_diagonal_block(0, d, 1, lo_, hi_, ld_, mt); ENSURE(puts_ == (n_ > 0), "the vector is written once"); }
#define C_ROW(d, v, mt) { sgai_scale_row_values(mt, lo_, hi_, ld_, d, 1); ENSURE(gets_ == 1, "the vector is read once"); }
#define C_COL(d, v, mt) { sgai_scale_col_values(mt, lo_, hi_, ld_, d, 1); ENSURE(gets_ == 1, "the vector is read once"); }
VS_ENTRY(vs_shiftd) { shape(); e_ = -1;
  ALL(1, C_SHIFT, diag_, x + y, xr + yr, xi + yi, "exactly the elements on the diagonal are shifted, once")
  vs_reach("end"); return 0; }
VS_ENTRY(vs_zerod) { shape(); e_ = -1;
  ALL(1, C_ZERO, diag_, 0, 0, 0, "exactly the elements on the diagonal become zero")
  vs_reach("end"); return 0; }
VS_ENTRY(vs_setd) { shape(); diagvec();
  ALL(VLEN, C_SET, diag_, y, yr, yi, "exactly the elements on the diagonal become the vector's")
  vs_reach("end"); return 0; }
VS_ENTRY(vs_addd) { shape(); diagvec();
  ALL(VLEN, C_ADD, diag_, x + y, xr + yr, xi + yi, "the vector's elements are added to exactly the elements on the diagonal")
  vs_reach("end"); return 0; }
VS_ENTRY(vs_getd) { shape(); diagvec();
  ALL(VLEN, C_GET, 0, 0, 0, 0, "the matrix is unchanged")
  vs_reach("end"); return 0; }
VS_ENTRY(vs_scaler) { shape(); vlo_ = lo_[0]; vhi_ = hi_[0]; e_ = in_ ? r_ : -1;
  ALL(VLEN, C_ROW, in_, x * y, xr * yr - xi * yi, xr * yi + xi * yr, "each element of the block is scaled by its row's factor, once")
  vs_reach("end"); return 0; }
VS_ENTRY(vs_scalec) { shape(); vlo_ = lo_[1]; vhi_ = hi_[1]; e_ = c_;
  ALL(VLEN, C_COL, in_, x * y, xr * yr - xi * yi, xr * yi + xi * yr, "each element of the block is scaled by its column's factor, once")
  vs_reach("end"); return 0; }
