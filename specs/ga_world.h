/* symbolic Global Array state used by the contract harnesses (the state itself
   lives in the real GA structures of the included translation unit) */
#ifndef GA_WORLD_H
#define GA_WORLD_H
#include "vs.h"
#define VDIM  VS_LIM(1L<<40, vw_ndim == 1 ? 80 : 14)     /* upper limit on array extents */
#define VNB   VS_LIM(1L<<20, vw_ndim == 1 ? 9 : 5)      /* upper limit on blocks per dimension */
#define VMAP  VS_LIM(1L<<30, 64)
#define VPROC VS_LIM(1L<<30, 16)
static global_array_t vga[2];
static proc_list_t vpg[3];
#define VGA (-(GA_OFFSET))             /* handle of the array under test */

static Integer vw_ndim;

/* contract of the floating point block estimate used by findblock */
static void vw_scale_ok(int d, Integer e, int n) {
  int c = (int)(vga[0].scale[d] * e);
  REQUIRE(0 <= c && c <= n);
}

/* array identity common to every distribution */
static void vw_common(void) {
  int d;
  Integer ndim = vs_case("ndim", 1, MAXDIM);
  GA = vga; PGRP_LIST = vpg; _max_global_array = 1;
  vw_ndim = ndim;
  vga[0].ndim = ndim; vga[0].actv = 1; vga[0].actv_handle = 1;
  vga[0].num_rstrctd = 0; vga[0].property = 0; vga[0].p_handle = -1;
  for (d = 0; d < ndim; d++) vga[0].dims[d] = vs_long("dims", 1, VDIM);
}
/* a user visible regular / irregular block distribution */
static void vw_regular(int mindiff) {
  int d; long hi[MAXDIM];
  vga[0].distr_type = REGULAR;
  for (d = 0; d < vw_ndim; d++) {
    vga[0].nblock[d] = vs_int("nblock", 1, VNB);
    REQUIRE(vga[0].nblock[d] <= vga[0].dims[d]);
    vga[0].scale[d] = (double)vga[0].nblock[d] / (double)vga[0].dims[d];
    hi[d] = vga[0].dims[d] + 1 - mindiff;
  }
  vga[0].mapc = vs_segments("mapc", vw_ndim, vga[0].nblock, VMAP, 1, mindiff, hi);
}
/* fixed size blocks: block cyclic, ScaLAPACK and tiled distributions */
static void vw_blocked(int type) {
  int d;
  vga[0].distr_type = type;
  vga[0].block_total = 1;
  for (d = 0; d < vw_ndim; d++) {
#ifdef VS_NATIVE
    Integer b = vs_long("block_dims", 1, VDIM), n = (vga[0].dims[d] - 1) / b + 1;
    (void)vs_longs("num_blocks", 1, 1, n, n);
#else
    Integer b = vs_long("block_dims", 1, VDIM), n = vs_long("num_blocks", 1, VNB);
    REQUIRE((n - 1) * b < vga[0].dims[d] && vga[0].dims[d] <= n * b);
#endif
    vga[0].block_dims[d] = b; vga[0].num_blocks[d] = n;
    vga[0].block_total *= n;
    vga[0].nblock[d] = type == BLOCK_CYCLIC ? 1 : vs_int("pgrid", 1, VNB);
    vga[0].scale[d] = (double)n / (double)vga[0].dims[d];
  }
}
static void vw_tiled_irreg(int mindiff) {
  int d, len[MAXDIM]; long hi[MAXDIM];
  vga[0].distr_type = TILED_IRREG;
  vga[0].block_total = 1;
  for (d = 0; d < vw_ndim; d++) {
    len[d] = vs_int("num_blocks", 1, VNB);
    vga[0].num_blocks[d] = len[d];
    vga[0].block_total *= len[d];
    vga[0].nblock[d] = vs_int("pgrid", 1, VNB);
    REQUIRE(len[d] <= vga[0].dims[d]);
    vga[0].scale[d] = (double)len[d] / (double)vga[0].dims[d];
    hi[d] = vga[0].dims[d] + 1 - mindiff;
  }
  vga[0].mapc = vs_segments("mapc", vw_ndim, len, VMAP, 1, mindiff, hi);
}
/* number of blocks of the distribution (the product of per dimension counts) */
static Integer vw_nblocks(void) {
  Integer n = 1; int d;
  for (d = 0; d < vw_ndim; d++)
    n *= vga[0].distr_type == REGULAR ? (Integer)vga[0].nblock[d] : vga[0].num_blocks[d];
  return n;
}
#endif
