/* C12: vocabulary of the generated contracts of the C wrappers */
#include "global/src/capi.c"
#include "vs.h"
#define BIG64 ((long)1 << 60)
#define IMIN (-2147483647L - 1)
#define IMAX 2147483647L
static Integer G0_, es_[24], ea_[24][7], oa_[24][7], os_[24], rv_, vi_, op_; static int el_[24];
static long in_[24][7]; 
static void own(int d);
static const void *ep_[24]; static int nd_[4], ncall_, null_, strict_, vt_; static char any_, buf_[512];
#define ANY ((const void*)&any_)
#define VAL_int(n) vs_int(n, -1000000, 1000000)
#define VAL_long(n) vs_long(n, -BIG64, BIG64)
#define OUT1_int(n) vs_int(n, IMIN + 1, IMAX)
#define OUT1_long(n) vs_long(n, -BIG64, BIG64)
#define START ncall_ = 0
#define OWN own(nd_[0]);
/* an operation for arrays of the same number of dimensions */
#define SAME { int k_; for (k_ = 1; k_ < 4; k_++) nd_[k_] = nd_[0]; }
/* an array argument of the caller and what the callee must see of it */
static int *IN_int(const char *nm, int n, int slot, int plus, int rev) { int *a = vs_ints(nm, n, 7, IMIN, IMAX), k; el_[slot] = n;
  for (k = 0; k < n; k++) { in_[slot][k] = a[k]; ea_[slot][rev ? n - 1 - k : k] = (Integer)a[k] + plus; } return a; }
static int64_t *IN_i64(const char *nm, int n, int slot, int plus, int rev) { int64_t *a = (int64_t*)vs_longs(nm, n, 7, -BIG64, BIG64); int k; el_[slot] = n;
  for (k = 0; k < n; k++) { in_[slot][k] = a[k]; ea_[slot][rev ? n - 1 - k : k] = (Integer)a[k] + plus; } return a; }
/* an array the callee fills and the caller receives */
static int *OUT_int(const char *nm, int n, int slot) { int *v = vs_ints(nm, n, 7, IMIN + 1, IMAX), *r = vs_ints("recv", n, 7, 5, 5), k; el_[slot] = n; for (k = 0; k < n; k++) oa_[slot][k] = v[k]; return r; }
static int64_t *OUT_i64(const char *nm, int n, int slot) { long *v = vs_longs(nm, n, 7, -BIG64, BIG64); int64_t *r = (int64_t*)vs_longs("recv", n, 7, 5, 5); int k; el_[slot] = n; for (k = 0; k < n; k++) oa_[slot][k] = v[k]; return r; }
#define AEQ(a, i, txt) { int k_; for (k_ = 0; k_ < el_[i]; k_++) ENSURE((a)[k_] == ea_[i][k_], txt); }
#define AOUT(a, i) { int k_; for (k_ = 0; k_ < el_[i]; k_++) (a)[k_] = oa_[i][k_]; }
#define VOUT(p) { switch (vt_) { case 0: *(int*)(p) = (int)vi_; break; case 1: *(long*)(p) = vi_; break; case 2: *(double*)(p) = (double)vi_; break; default: *(float*)(p) = (float)vi_; } }
#define UNCH(q, n, i, txt) { int k_; for (k_ = 0; k_ < (n); k_++) ENSURE((q)[k_] == in_[i][k_], txt); }
#define OEQ(q, n, i, adj, txt) { int k_; for (k_ = 0; k_ < (n); k_++) ENSURE((q)[k_] == oa_[i][(n) - 1 - k_] adj, txt); }
static void own(int d) { nd_[0] = d; nd_[1] = 1 + d % 7; nd_[2] = 1 + (d + 2) % 7; nd_[3] = 1 + (d + 4) % 7; }
static void base(int d) { G0_ = vs_int("handle", -1000, 100000); own(d); }
Integer pnga_ndim(Integer g) { int k; for (k = 0; k < 4; k++) if (g == G0_ + k) return nd_[k]; ENSURE(0, "dimension of an argument array"); return 1; }
Integer pnga_get_dimension(Integer g) { return pnga_ndim(g); }
