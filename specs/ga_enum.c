/* C20: enumeration on one process.  Real code: global/src/sparse.c pnga_patch_enum.
   By contract: the block of the process (pnga_distribution) and the address of its elements (pnga_access_ptr, C02). */
#include "global/src/sparse.c"
#include "vs.h"
#define BIG VS_LIM(1L << 40, 30)
static long t_, lop_, hip_, lo_, hi_, dim_, n_, w_, seen_, rel_; static char *mem_;
void pnga_sync(void) {}
Integer pnga_nodeid(void) { return 0; }
void pnga_check_handle(Integer g, char *s) {}
Integer pnga_ndim(Integer g) { return 1; }
static Integer mt_;
void pnga_inquire(Integer g, Integer *type, Integer *ndim, Integer *dims) { *type = mt_; *ndim = 1; dims[0] = dim_; }
void pnga_distribution(Integer g, Integer p, Integer *lo, Integer *hi) { *lo = lop_; *hi = hip_; }
void pnga_access_ptr(Integer g, Integer *lo, Integer *hi, void *ptr, Integer *ld) {
  ENSURE(lop_ <= lo[0] && lo[0] <= hi[0] && hi[0] <= hip_, "only elements of the process are accessed");
  *(char **)ptr = mem_ + (lo[0] - lop_) * (t_ == 0 || t_ == 2 ? 4 : 8); ld[0] = hip_ - lop_ + 1; seen_ = seen_ + 1; }
void pnga_release_update(Integer g, Integer *lo, Integer *hi) { rel_ = rel_ + 1; }
void pnga_error(char *s, Integer c) { ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
#define RUN(T, MK) { T start = (T)MK("start"), stride = (T)MK("stride"), old; T *m = (T *)mem_; old = m[w_]; \
  pnga_patch_enum(0, lo_, hi_, &start, &stride); \
  if (lo_ <= lop_ + w_ && lop_ + w_ <= hi_) ENSURE(m[w_] == (T)(start + (T)((T)(lop_ + w_ - lo_) * stride)), "an element of the patch holds its place in the enumeration"); \
  else ENSURE(m[w_] == old, "an element outside the patch is unchanged"); }
#define LI(n) vs_long(n, -1000, 1000)
#define DI(n) vs_double(n)
#define FI(n) vs_float(n)
VS_ENTRY(vs_enum) {
  t_ = vs_case("type", 0, 3); seen_ = rel_ = 0;
  mt_ = t_ == 0 ? C_INT : t_ == 1 ? C_LONG : t_ == 2 ? C_FLOAT : C_DBL;
  dim_ = vs_long("dim", 1, VS_LIM(t_ == 0 ? 1L << 20 : 1L << 40, 30));
  lop_ = vs_long("mylo", 1, dim_); n_ = vs_long("mine", 1, dim_ - lop_ + 1); hip_ = lop_ + n_ - 1;
  lo_ = vs_long("lo", 1, dim_); hi_ = vs_long("hi", lo_, dim_);
  w_ = vs_witness("element", 0, n_ - 1);
  if (t_ == 0) { mem_ = (char *)vs_ints("mem", n_, 30, -1000, 1000); RUN(int, LI) }
  if (t_ == 1) { mem_ = (char *)vs_longs("mem", n_, 30, -1000, 1000); RUN(long, LI) }
  if (t_ == 2) { mem_ = (char *)vs_floats("mem", n_, 30); RUN(float, FI) }
  if (t_ == 3) { mem_ = (char *)vs_doubles("mem", n_, 30); RUN(double, DI) }
  ENSURE(seen_ == rel_, "what was accessed is released");
  vs_reach("end");
  return 0;
}
