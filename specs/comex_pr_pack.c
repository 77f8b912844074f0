/* C04: packing and unpacking of strided sections in comex/src-mpi-pr/comex.c */
#include "comex/src-mpi-pr/comex.c"
#include "vs.h"
int MPI_Abort(MPI_Comm c, int e) { ENSURE(0, "no internal assertion fails"); vs_abort(); return 0; }

#define CNT VS_LIM(1L<<12, 4)
#define STR VS_LIM(1L<<20, 40)
static int count_[9], stride_[9], wit_[9];
static long row_, irow_, off_, need_, rows_;
static char want_, old_;
/* a strided section, one arbitrary byte of it, its packed position and its byte offset */
static void section(int L) {
  int j; long b;
  count_[0] = vs_int("count", 1, CNT);
  need_ = count_[0]; rows_ = 1; row_ = 0; off_ = 0;
  for (j = 1; j <= L; j++) {
    count_[j] = vs_int("count", 1, CNT);
    stride_[j - 1] = vs_int("stride", 0, STR);
    wit_[j] = vs_int("row", 0, count_[j] - 1);
    need_ += (long)(count_[j] - 1) * stride_[j - 1];
    row_ += wit_[j] * rows_;
    off_ += (long)wit_[j] * stride_[j - 1];
    rows_ *= count_[j];
  }
  b = vs_long("byte", 0, count_[0] - 1);
  irow_ = row_;
  row_ = row_ * count_[0] + b;
  off_ += b;
}
VS_ENTRY(vs_pack) {
  int L = (int)vs_case("L", 0, 6), size = -1; char *src, *got;
  section(L);
  src = vs_bytes("src", need_, VS_LIM(1L<<40, 4096));
  want_ = src[off_];
  got = pack(src, stride_, count_, L, &size);
  ENSURE(size == rows_ * count_[0], "the packed size is the number of bytes in the section");
  ENSURE(got[row_] == want_, "every byte of the section lands at its packed position");
  ENSURE(src[off_] == want_, "the source is unchanged");
  free(got);
  vs_reach("end");
  return 0;
}
VS_ENTRY(vs_unpack) {
  int L = (int)vs_case("L", 0, 6), j; long k, lim; char *dst, *src;
  section(L);
  /* rows do not overlap */
  lim = count_[0];
  for (j = 1; j <= L; j++) { REQUIRE(stride_[j - 1] >= lim); lim = (long)(count_[j] - 1) * stride_[j - 1] + lim; }
  src = vs_bytes("src", rows_ * count_[0], VS_LIM(1L<<40, 4096));
  dst = vs_bytes("dst", need_ + 1, VS_LIM(1L<<40, 4096));
  want_ = src[row_]; old_ = dst[need_];
  unpack(src, dst, stride_, count_, L);
  ENSURE(dst[off_] == want_, "every packed byte lands at its place in the section");
  ENSURE(dst[need_] == old_, "nothing beyond the section changes");
  ENSURE(src[row_] == want_, "the source is unchanged");
  vs_reach("end");
  return 0;
}
