/* C18: selection kernel.  Real code: global/src/select.c */
#include "global/src/select.c"
#include "vs.h"
void pnga_error(char *s, Integer c) { (void)s; (void)c; ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
#define NMAX VS_LIM(1L<<26, 20)
#define vi(n, c, m) vs_ints(n, c, m, -1000, 1000)
#define vl(n, c, m) vs_longs(n, c, m, -1000000, 1000000)
static elem_info_t info_; static Integer ind_, k_; static long n_;
/* ghosts */
static int *gi_; static long *gl_; static float *gf_; static double *gd_;
#ifndef VS_NATIVE
/* the operator name is compared by its first three letters */
int strncmp(const char *a, const char *b, unsigned long n) { unsigned long i; for (i = 0; i < n; i++) { if (a[i] != b[i]) return a[i] < b[i] ? -1 : 1; if (!a[i]) return 0; } return 0; }
#endif
#define SEL(T, ARR, MT, F, L) { T *a = (T*)ARR("data", n_, NMAX); g##L##_ = a; \
  snga_select_elem(MT, op, a, n_, &info_, &ind_); \
  ENSURE(ind_ >= 0 && ind_ < n_, "the position is one of the elements"); \
  ENSURE(info_.v.F == a[ind_], "the value is the element at the position"); \
  if (mx) ENSURE(!(a[k_] > info_.v.F), "no element is larger"); else ENSURE(!(a[k_] < info_.v.F), "no element is smaller"); }
VS_ENTRY(vs_selk) {
  int mx = (int)vs_case("max", 0, 1); char *op = mx ? "max" : "min";
  n_ = vs_long("n", 1, NMAX); k_ = vs_witness("k", 0, n_ - 1);
  switch (vs_case("type", 0, 3)) {
  case 0: SEL(int, vi, C_INT, ival, i) break;
  case 1: SEL(long, vl, C_LONG, lval, l) break;
  case 2: SEL(float, vs_floats, C_FLOAT, fval, f) break;
  case 3: SEL(double, vs_doubles, C_DBL, dval, d) break;
  }
  vs_reach("end"); return 0; }
/* the better of two candidates is kept together with its payload */
#define CMP(F, WANT, MT) { info_.v.F = (WANT)vs_##MT; nw_.v.F = (WANT)vs_##MT; { WANT x = info_.v.F, y = nw_.v.F; int better = mx ? y > x : y < x; \
  info_.subscr[0] = 7; nw_.subscr[0] = 9; snga_compare_elem(ty, op, &nw_, &info_, &upd_); \
  ENSURE(info_.v.F == (better ? y : x), "the better candidate is kept"); ENSURE(upd_ == better, "the caller learns whether the candidate was replaced"); } }
#define vs_MI vs_long("x", -1000, 1000)
#define vs_MF vs_float("x")
#define vs_MD vs_double("x")
static elem_info_t nw_; static Integer upd_;
VS_ENTRY(vs_cmpk) {
  static const int T[] = { C_INT, C_LONG, C_FLOAT, C_DBL, C_LONGLONG };
  int mx = (int)vs_case("max", 0, 1), t = (int)vs_case("type", 0, 4); char *op = mx ? "max" : "min"; Integer ty = T[t];
  switch (t) {
  case 0: CMP(ival, int, MI) break;
  case 1: CMP(lval, long, MI) break;
  case 2: CMP(fval, float, MF) break;
  case 3: CMP(dval, double, MD) break;
  case 4: CMP(llval, long long, MI) break;
  }
  vs_reach("end"); return 0; }
/* a complex candidate carries the squared modulus and the value itself */
VS_ENTRY(vs_cmpc) {
  int mx = (int)vs_case("max", 0, 1), t = (int)vs_case("type", 0, 1); char *op = mx ? "max" : "min";
  if (t) { double x = vs_double("x"), y = vs_double("y"), p = vs_double("p"), q = vs_double("q"), r = vs_double("r"), s = vs_double("s"); int better = mx ? y > x : y < x;
    info_.v.dval = x; info_.extra.real = p; info_.extra.imag = q; nw_.v.dval = y; nw_.extra.real = r; nw_.extra.imag = s;
    snga_compare_elem(C_DCPL, op, &nw_, &info_, &upd_);
    ENSURE(info_.v.dval == (better ? y : x), "the better candidate is kept"); ENSURE(upd_ == better, "the caller learns whether the candidate was replaced");
    ENSURE(info_.extra.real == (better ? r : p) && info_.extra.imag == (better ? s : q), "the complex value belongs to the candidate that is kept");
  } else { float x = vs_float("x"), y = vs_float("y"), p = vs_float("p"), q = vs_float("q"), r = vs_float("r"), s = vs_float("s"); int better = mx ? y > x : y < x;
    info_.v.fval = x; info_.extra2.real = p; info_.extra2.imag = q; nw_.v.fval = y; nw_.extra2.real = r; nw_.extra2.imag = s;
    snga_compare_elem(C_SCPL, op, &nw_, &info_, &upd_);
    ENSURE(info_.v.fval == (better ? y : x), "the better candidate is kept"); ENSURE(upd_ == better, "the caller learns whether the candidate was replaced");
    ENSURE(info_.extra2.real == (better ? r : p) && info_.extra2.imag == (better ? s : q), "the complex value belongs to the candidate that is kept");
  }
  vs_reach("end"); return 0; }
