/* C05: accumulate / scale kernels of the communication layer (comex/src-common/acc.h) */
#include <assert.h>
#include <stddef.h>
#include <string.h>
#include "comex_config.h"
#include "vs.h"
#undef assert
#define assert(x) ENSURE(x, "known element type")
#include "comex/src-common/acc.h"
#define NMAX VS_LIM(1L<<26, 20)

#define REALCASE(OP, T, ARR, SIZE, FOP) { \
  T *d = (T*)ARR("dst", n + 2, NMAX + 2), *s = (T*)ARR("src", n + 1, NMAX + 1); \
  T a = *(T*)ARR("scale", 1, 1), dk = d[k], sk = s[k], d2 = d[n + 1], dn = d[n], want; \
  FOP(OP, (int)(n * sizeof(T)), d, s, &a); \
  want = FOP##_want(dk, sk, a); \
  ENSURE(d[k] == want, "each element is combined with its source element"); \
  ENSURE(d[n] == dn && d[n + 1] == d2, "nothing beyond the last element changes"); \
  ENSURE(s[k] == sk, "the source is unchanged"); }
#define CPLCASE(OP, T, E, DBL, FOP) { T proto; \
  T *d = vs_cpls("dst", n + 1, NMAX + 1, &proto, DBL), *s = vs_cpls("src", n + 1, NMAX + 1, &proto, DBL), *a = vs_cpls("scale", 1, 1, &proto, DBL); \
  E dr = d[k].real, di = d[k].imag, sr = s[k].real, si = s[k].imag, d2 = d[n].real, d3 = d[n].imag, ar = a[0].real, ai = a[0].imag; \
  FOP(OP, (int)(n * sizeof(T)), d, s, a); \
  ENSURE(d[k].real == FOP##_wre(dr, sr, si, ar, ai), "real part of each element"); \
  ENSURE(d[k].imag == FOP##_wim(di, sr, si, ar, ai), "imaginary part of each element"); \
  ENSURE(d[n].real == d2 && d[n].imag == d3, "nothing beyond the last element changes"); \
  ENSURE(s[k].real == sr && s[k].imag == si, "the source is unchanged"); }
#define _acc_want(d, s, a) (d) + (s) * (a)
#define _scale_want(d, s, a) (s) * (a)
#define _acc_wre(d, sr, si, ar, ai) ((d) + (((sr) * (ar)) - ((si) * (ai))))
#define _acc_wim(d, sr, si, ar, ai) ((d) + (((sr) * (ai)) + ((si) * (ar))))
#define _scale_wre(d, sr, si, ar, ai) (((sr) * (ar)) - ((si) * (ai)))
#define _scale_wim(d, sr, si, ar, ai) (((sr) * (ai)) + ((si) * (ar)))
#define vi(n, c, m) vs_ints(n, c, m, -1000, 1000)
#define vl(n, c, m) vs_longs(n, c, m, -1000000, 1000000)

VS_ENTRY(vs_acc) {
  long n = vs_long("n", 1, NMAX), k = vs_witness("k", 0, n - 1);
  switch (vs_case("type", 0, 5)) {
  case 0: REALCASE(COMEX_ACC_INT, int, vi, 4, _acc) break;
  case 1: REALCASE(COMEX_ACC_DBL, double, vs_doubles, 8, _acc) break;
  case 2: REALCASE(COMEX_ACC_FLT, float, vs_floats, 4, _acc) break;
  case 3: REALCASE(COMEX_ACC_LNG, long, vl, 8, _acc) break;
  case 4: CPLCASE(COMEX_ACC_DCP, DoubleComplex, double, 1, _acc) break;
  case 5: CPLCASE(COMEX_ACC_CPL, SingleComplex, float, 0, _acc) break;
  }
  vs_reach("end");
  return 0;
}
VS_ENTRY(vs_scale) {
  long n = vs_long("n", 1, NMAX), k = vs_witness("k", 0, n - 1);
  switch (vs_case("type", 0, 5)) {
  case 0: REALCASE(COMEX_ACC_INT, int, vi, 4, _scale) break;
  case 1: REALCASE(COMEX_ACC_DBL, double, vs_doubles, 8, _scale) break;
  case 2: REALCASE(COMEX_ACC_FLT, float, vs_floats, 4, _scale) break;
  case 3: REALCASE(COMEX_ACC_LNG, long, vl, 8, _scale) break;
  case 4: CPLCASE(COMEX_ACC_DCP, DoubleComplex, double, 1, _scale) break;
  case 5: CPLCASE(COMEX_ACC_CPL, SingleComplex, float, 0, _scale) break;
  }
  vs_reach("end");
  return 0;
}
