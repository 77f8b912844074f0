/* C08: a periodic request is cut into ranges inside the array that tile it.  Real code: global/src/global.periodic.c
   ngai_peri_get_range_ and pnga_periodic; put, get and accumulate are by contract. */
#include "global/src/global.periodic.c"
#include "vs.h"
#define BIG VS_LIM(1L << 40, 12)
static long nd_, dims_[8], q_[8], in_[8], w_[8], op_, el_; static Integer lo_[8], hi_[8], ld_[8];
static Integer rg_[MAXDIM][RANGE_BOUND], rn_[MAXDIM], of_[MAXDIM][RANGE_BOUND/2];
void pnga_error(char *s, Integer c) { ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
static void request(void) {
  int d;
  nd_ = vs_case("ndim", 1, 7);
  for (d = 0; d < nd_; d++) {
    long p, r;
    dims_[d] = vs_long("dims", 1, BIG);
    p = vs_long("period", -VS_LIM(1L << 20, 4), VS_LIM(1L << 20, 4)); r = vs_long("first", 1, dims_[d]);
    lo_[d] = p * dims_[d] + r; hi_[d] = vs_long("hi", lo_[d], lo_[d] + 2 * dims_[d] - 1);
    /* an element of the request: inside the array it is element in_, q_ periods away */
    q_[d] = vs_long("away", p, p + 2); in_[d] = vs_long("inside", 1, dims_[d]); w_[d] = in_[d] + q_[d] * dims_[d];
    REQUIRE(lo_[d] <= w_[d] && w_[d] <= hi_[d]);
  }
}
VS_ENTRY(vs_range) {
  int d, k, r, hits;
  request();
  r = ngai_peri_get_range_(nd_, (Integer *)dims_, lo_, hi_, rg_, rn_, of_, 0);
  ENSURE(r != 0, "a request of at most two periods is accepted");
  if (r == IS_REGULAR_PATCH) {
    for (d = 0; d < nd_; d++) ENSURE(1 <= lo_[d] && hi_[d] <= dims_[d], "a patch that is not cut lies inside the array");
  } else for (d = 0; d < nd_; d++) {
    ENSURE(1 <= rn_[d] && rn_[d] <= RANGE_NUM, "there are one to three ranges");
    hits = 0;
    for (k = 0; k < RANGE_NUM; k++) if (k < rn_[d]) {
      ENSURE(1 <= rg_[d][2 * k] && rg_[d][2 * k] <= rg_[d][2 * k + 1] && rg_[d][2 * k + 1] <= dims_[d], "every range lies inside the array");
      if (of_[d][k] <= w_[d] - lo_[d] && w_[d] - lo_[d] <= of_[d][k] + rg_[d][2 * k + 1] - rg_[d][2 * k]) {
        hits++;
        ENSURE(rg_[d][2 * k] + (w_[d] - lo_[d] - of_[d][k]) == in_[d], "an element of the request is fetched from its image in the array");
      }
    }
    ENSURE(hits == 1, "every element of the request lies in exactly one range");
  }
  vs_reach("end");
  return 0;
}

/* the ranges of all dimensions are combined: every box of them is transferred once, at its own place in the buffer */
ga_typeinfo_t ga_types[GA_TYPES_MAX];
static Integer used_, type_, calls_, boxes_, hits_[27], n_[8]; static char *buf_, *alpha_;
int range_by_contract(Integer nd, Integer *dims, Integer *lo, Integer *hi, Integer rg[][RANGE_BOUND], Integer rn[], Integer of[][RANGE_BOUND/2], Integer op) {
  int d, k; used_ = 1; ENSURE(nd == nd_ && lo == lo_ && hi == hi_, "the ranges of the request are taken");
  for (d = 0; d < nd_; d++) { ENSURE(dims[d] == dims_[d], "in the array of the request"); rn[d] = n_[d];
    for (k = 0; k < n_[d]; k++) { rg[d][2*k] = rg_[d][2*k]; rg[d][2*k+1] = rg_[d][2*k+1]; of[d][k] = of_[d][k]; } }
  return 1; }
void pnga_inquire(Integer g, Integer *type, Integer *nd, Integer *dims) { int d; *type = type_; *nd = nd_; for (d = 0; d < nd_; d++) dims[d] = dims_[d]; }
static void box(int op, Integer *lo, Integer *hi, void *buf, Integer *ld) {
  int b, d, k, r, same; long off, f;
  ENSURE(op == op_, "the transfer is that of the request"); ENSURE(ld == ld_, "the leading dimensions of the buffer are passed on");
  calls_ = calls_ + 1;
  for (b = 0; b < boxes_; b++) {
    same = 1; off = 0; f = 1; r = b;
    for (d = 0; d < nd_; d++) { k = r % n_[d]; r = r / n_[d]; same = same && lo[d] == rg_[d][2*k] && hi[d] == rg_[d][2*k+1]; off += of_[d][k] * f; f *= ld_[d]; }
    if (same && (char *)buf - buf_ == off * el_) hits_[b] = hits_[b] + 1;
  } }
void pnga_put(Integer g, Integer *lo, Integer *hi, void *buf, Integer *ld) { box(PERIODIC_PUT, lo, hi, buf, ld); }
void pnga_get(Integer g, Integer *lo, Integer *hi, void *buf, Integer *ld) { box(PERIODIC_GET, lo, hi, buf, ld); }
void pnga_acc(Integer g, Integer *lo, Integer *hi, void *buf, Integer *ld, void *a) { ENSURE(a == (void *)alpha_, "the scale factor is passed on"); box(PERIODIC_ACC, lo, hi, buf, ld); }
VS_ENTRY(vs_boxes) {
  int d, k, b;
  nd_ = vs_case("ndim", 1, 3); op_ = vs_case("op", PERIODIC_GET, PERIODIC_ACC); calls_ = used_ = 0; boxes_ = 1; el_ = 8; type_ = C_DBL; ga_types[C_DBL - MT_BASE].size = 8;
  n_[0] = vs_case("r0", 1, 3); n_[1] = vs_case("r1", 1, 3); n_[2] = vs_case("r2", 1, 3);
  for (d = 0; d < nd_; d++) {
    boxes_ *= n_[d]; dims_[d] = vs_long("dims", 1, BIG); ld_[d] = vs_long("ld", 1, BIG); lo_[d] = hi_[d] = 1;
    for (k = 0; k < n_[d]; k++) { rg_[d][2*k] = vs_long("from", 1, BIG); rg_[d][2*k+1] = vs_long("to", 1, BIG); of_[d][k] = vs_long("off", 0, BIG); }
  }
  for (b = 0; b < boxes_; b++) hits_[b] = 0;
  if (nd_ > 7) range_by_contract(0, 0, 0, 0, 0, 0, 0, 0);
  buf_ = vs_bytes("buf", 1, 1); alpha_ = vs_bytes("alpha", 1, 1);
  pnga_periodic(0, lo_, hi_, buf_, ld_, alpha_, op_);
  REQUIRE(used_);   /* says nothing about a pnga_periodic that takes its ranges from elsewhere */
  ENSURE(calls_ == boxes_, "there is one transfer for each box");
  for (b = 0; b < boxes_; b++) ENSURE(hits_[b] >= 1, "every box is transferred at its place in the buffer");
  vs_reach("end");
  return 0;
}
