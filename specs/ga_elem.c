/* C07: element kernels of the whole-array operations.  Real code: global/src/elem_alg.c */
#include "global/src/elem_alg.c"
#include "vs.h"
void pnga_error(char *s, Integer c) { (void)s; (void)c; ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
#define NMAX VS_LIM(1L<<26, 20)
#define vi(n, c, m) vs_ints(n, c, m, -1000, 1000)
#define vl(n, c, m) vs_longs(n, c, m, -1000000, 1000000)
#define ABS(x) ((x) >= 0 ? (x) : -(x))
#define MAXV(a, b) ((a) >= (b) ? (a) : (b))
#define MINV(a, b) ((a) <= (b) ? (a) : (b))
static long n_, k_; static int ov_;
static void shape(void) { n_ = vs_long("n", 1, NMAX); k_ = vs_witness("k", 0, n_ - 1); }
#define UNARY(T, ARR, CALL, WANT) { T *d = (T*)ARR("data", n_ + 1, NMAX + 1), x, e, a = *(T*)ARR("alpha", 1, 1), w; (void)a; x = d[k_]; e = d[n_]; w = (WANT); CALL; \
  ENSURE(d[k_] == w, "each element gets its own result"); ENSURE(d[n_] == e, "nothing beyond the last element changes"); }
#define UNARYC(T, E, DBL, CALL, WRE, WIM) { T proto; T *d = vs_cpls("data", n_ + 1, NMAX + 1, &proto, DBL); T *al = vs_cpls("alpha", 1, 1, &proto, DBL), a = al[0]; \
  E xr = d[k_].real, xi = d[k_].imag, er = d[n_].real, ei = d[n_].imag, wr = (WRE), wi = (WIM); CALL; \
  ENSURE(d[k_].real == wr, "real part of each element"); ENSURE(d[k_].imag == wi, "imaginary part of each element"); ENSURE(d[n_].real == er && d[n_].imag == ei, "nothing beyond the last element changes"); }
VS_ENTRY(vs_abs) { shape();
  switch (vs_case("type", 0, 3)) {
  case 0: UNARY(int, vi, do_abs(d, (int)n_, C_INT), ABS(x)) break;
  case 1: UNARY(long, vl, do_abs(d, (int)n_, C_LONG), ABS(x)) break;
  case 2: UNARY(float, vs_floats, do_abs(d, (int)n_, C_FLOAT), ABS(x)) break;
  case 3: UNARY(double, vs_doubles, do_abs(d, (int)n_, C_DBL), ABS(x)) break;
  }
  vs_reach("end"); return 0; }
VS_ENTRY(vs_addc) { shape();
  switch (vs_case("type", 0, 5)) {
  case 0: UNARY(int, vi, do_add_const(d, (int)n_, C_INT, &a), x + a) break;
  case 1: UNARY(long, vl, do_add_const(d, (int)n_, C_LONG, &a), x + a) break;
  case 2: UNARY(float, vs_floats, do_add_const(d, (int)n_, C_FLOAT, &a), x + a) break;
  case 3: UNARY(double, vs_doubles, do_add_const(d, (int)n_, C_DBL, &a), x + a) break;
  case 4: UNARYC(SingleComplex, float, 0, do_add_const(d, (int)n_, C_SCPL, &a), xr + a.real, xi + a.imag) break;
  case 5: UNARYC(DoubleComplex, double, 1, do_add_const(d, (int)n_, C_DCPL, &a), xr + a.real, xi + a.imag) break;
  }
  vs_reach("end"); return 0; }
/* binary kernels: the result overlays no operand (0), the first (1), the second (2) or both (3) */
#define BINARY(T, ARR, FN, MT, WANT) { T *a = (T*)ARR("a", n_ + 1, NMAX + 1), *b = ov_ == 3 ? a : (T*)ARR("b", n_ + 1, NMAX + 1), *c = ov_ == 0 ? (T*)ARR("c", n_ + 1, NMAX + 1) : ov_ == 2 ? b : a; \
  T x = a[k_], y = b[k_], e = c[n_], w = (WANT); FN(a, b, c, n_, MT); \
  ENSURE(c[k_] == w, "each element gets its own result"); ENSURE(c[n_] == e, "nothing beyond the last element changes"); \
  if (ov_ == 0 || ov_ == 2) ENSURE(a[k_] == x, "the first operand is unchanged"); if (ov_ == 0 || ov_ == 1) ENSURE(b[k_] == y, "the second operand is unchanged"); }
#define BINARYC(T, E, DBL, FN, MT, WRE, WIM) { T proto; T *a = vs_cpls("a", n_ + 1, NMAX + 1, &proto, DBL), *b = ov_ == 3 ? a : vs_cpls("b", n_ + 1, NMAX + 1, &proto, DBL), *c = ov_ == 0 ? vs_cpls("c", n_ + 1, NMAX + 1, &proto, DBL) : ov_ == 2 ? b : a; \
  E xr = a[k_].real, xi = a[k_].imag, yr = b[k_].real, yi = b[k_].imag, er = c[n_].real, ei = c[n_].imag, wr = (WRE), wi = (WIM); FN(a, b, c, n_, MT); \
  ENSURE(c[k_].real == wr, "real part of each element"); ENSURE(c[k_].imag == wi, "imaginary part of each element"); ENSURE(c[n_].real == er && c[n_].imag == ei, "nothing beyond the last element changes"); \
  if (ov_ == 0 || ov_ == 2) ENSURE(a[k_].real == xr && a[k_].imag == xi, "the first operand is unchanged"); if (ov_ == 0 || ov_ == 1) ENSURE(b[k_].real == yr && b[k_].imag == yi, "the second operand is unchanged"); }
VS_ENTRY(vs_mulk) { shape(); ov_ = (int)vs_case("overlay", 0, 3);
  switch (vs_case("type", 0, 5)) {
  case 0: BINARY(int, vi, do_multiply, C_INT, x * y) break;
  case 1: BINARY(long, vl, do_multiply, C_LONG, x * y) break;
  case 2: BINARY(float, vs_floats, do_multiply, C_FLOAT, x * y) break;
  case 3: BINARY(double, vs_doubles, do_multiply, C_DBL, x * y) break;
  case 4: BINARYC(SingleComplex, float, 0, do_multiply, C_SCPL, xr * yr - xi * yi, xr * yi + xi * yr) break;
  case 5: BINARYC(DoubleComplex, double, 1, do_multiply, C_DCPL, xr * yr - xi * yi, xr * yi + xi * yr) break;
  }
  vs_reach("end"); return 0; }
VS_ENTRY(vs_maxk) { shape(); ov_ = (int)vs_case("overlay", 0, 3);
  switch (vs_case("type", 0, 3)) {
  case 0: BINARY(int, vi, do_maximum, C_INT, MAXV(x, y)) break;
  case 1: BINARY(long, vl, do_maximum, C_LONG, MAXV(x, y)) break;
  case 2: BINARY(float, vs_floats, do_maximum, C_FLOAT, MAXV(x, y)) break;
  case 3: BINARY(double, vs_doubles, do_maximum, C_DBL, MAXV(x, y)) break;
  }
  vs_reach("end"); return 0; }
VS_ENTRY(vs_mink) { shape(); ov_ = (int)vs_case("overlay", 0, 3);
  switch (vs_case("type", 0, 3)) {
  case 0: BINARY(int, vi, do_minimum, C_INT, MINV(x, y)) break;
  case 1: BINARY(long, vl, do_minimum, C_LONG, MINV(x, y)) break;
  case 2: BINARY(float, vs_floats, do_minimum, C_FLOAT, MINV(x, y)) break;
  case 3: BINARY(double, vs_doubles, do_minimum, C_DBL, MINV(x, y)) break;
  }
  vs_reach("end"); return 0; }

/* the walk over a patch of a local block: the row kernels are replaced by their contract, which records the elements they are given */
#define EXT VS_LIM(1L<<20, 6)
static Integer lo_[MAXDIM], hi_[MAXDIM], ld_[MAXDIM], cnt_[MAXDIM], wit_[MAXDIM]; static int nd_, ty_, es_, want_, hits_;
static Integer irow_, off_, rows_, span_; static char *da_, *db_, *dc_, *sc_;
static const int types_[] = { C_INT, C_LONG, C_FLOAT, C_DBL, C_SCPL, C_DCPL };
static const int esize_[] = { 4, 8, 4, 8, 8, 16 };
static void patchshape(void) {
  int j; Integer f = 1;
  nd_ = (int)vs_case("ndim", 1, MAXDIM); ty_ = (int)vs_case("type", 0, 5); es_ = esize_[ty_]; ty_ = types_[ty_];
  rows_ = 1;
  for (j = 0; j < nd_; j++) {
    cnt_[j] = vs_long("count", 1, EXT);
    lo_[j] = vs_long("lo", 1, VS_LIM(1L<<40, 9)); hi_[j] = lo_[j] + cnt_[j] - 1;
    ld_[j] = j < nd_ - 1 ? vs_long("ld", cnt_[j], VS_LIM(1L<<30, 9)) : cnt_[j];
    wit_[j] = vs_witness("elem", 0, cnt_[j] - 1);
    off_ += wit_[j] * f; span_ += (cnt_[j] - 1) * f;
    if (j > 0) { irow_ += wit_[j] * rows_; rows_ *= cnt_[j]; }
    f *= ld_[j];
  }
}
static void rowcall(long o, long n, int type, int op) {
  ENSURE(op == want_, "the row kernel of the operation is used");
  ENSURE(type == ty_, "the row kernel gets the element type");
  ENSURE(n == cnt_[0], "a row has the length of the patch's first dimension");
  ENSURE(o >= 0 && o % es_ == 0 && o + n * es_ <= (span_ + 1) * es_, "a row lies inside the patch");
  if (o <= off_ * es_ && off_ * es_ < o + n * es_) hits_++;
}
void k_abs(void *p, int n, int type) { rowcall((char*)p - da_, n, type, OP_ABS); }
void k_recip(void *p, int n, int type) { rowcall((char*)p - da_, n, type, OP_RECIP); }
void k_addc(void *p, int n, int type, void *s) { ENSURE((char*)s == sc_, "the constant is passed on"); rowcall((char*)p - da_, n, type, OP_ADD_CONST); }
static void row3(void *a, void *b, void *c, Integer n, Integer type, int op) { ENSURE((char*)a - da_ == (char*)c - dc_ && (char*)b - db_ == (char*)c - dc_, "the rows of all three arrays correspond"); rowcall((char*)c - dc_, n, (int)type, op); }
void k_mul(void *a, void *b, void *c, Integer n, Integer t) { row3(a, b, c, n, t, OP_ELEM_MULT); }
void k_div(void *a, void *b, void *c, Integer n, Integer t) { row3(a, b, c, n, t, OP_ELEM_DIV); }
void k_max(void *a, void *b, void *c, Integer n, Integer t) { row3(a, b, c, n, t, OP_ELEM_MAX); }
void k_min(void *a, void *b, void *c, Integer n, Integer t) { row3(a, b, c, n, t, OP_ELEM_MIN); }
#ifndef VS_NATIVE
static void keep(void) { if (nd_ < 1) { k_abs(0, 0, 0); k_recip(0, 0, 0); k_addc(0, 0, 0, 0); k_mul(0, 0, 0, 0, 0); k_div(0, 0, 0, 0, 0); k_max(0, 0, 0, 0, 0); k_min(0, 0, 0, 0, 0); } }
VS_ENTRY(vs_walk1) {
  static const int ops[] = { OP_ABS, OP_ADD_CONST, OP_RECIP };
  patchshape(); keep(); want_ = ops[vs_case("op", 0, 2)];
  da_ = vs_bytes("data", (span_ + 1) * es_, 1L << 60); sc_ = vs_bytes("scalar", 16, 16);
  ngai_do_oper_elem(ty_, nd_, lo_, hi_, ld_, da_, sc_, want_);
  ENSURE(hits_ == 1, "every element of the patch is handed to the row kernel exactly once");
  vs_reach("end"); return 0; }
VS_ENTRY(vs_walk2) {
  static const int ops[] = { OP_ELEM_MULT, OP_ELEM_DIV, OP_ELEM_MAX, OP_ELEM_MIN };
  patchshape(); keep(); want_ = ops[vs_case("op", 0, 3)];
  da_ = vs_bytes("a", (span_ + 1) * es_, 1L << 60); db_ = vs_bytes("b", (span_ + 1) * es_, 1L << 60); dc_ = vs_bytes("c", (span_ + 1) * es_, 1L << 60);
  ngai_do_elem2_oper(ty_, nd_, lo_, hi_, ld_, da_, db_, dc_, want_);
  ENSURE(hits_ == 1, "every element of the patch is handed to the row kernel exactly once");
  vs_reach("end"); return 0; }
#endif
