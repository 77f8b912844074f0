/* generated by tools/gencapi.py (do not edit): C12, contracts of the C wrappers.  Real code: global/src/capi.c */
#include "ga_capi.h"
logical pnga_create(Integer a0, Integer a1, Integer *a2, char* a3, Integer *a4, Integer *a5) { ncall_++; ENSURE(a0 == es_[0], "create: scalar argument handed on"); ENSURE(a1 == es_[1], "create: scalar argument handed on"); AEQ(a2, 2, "create: array reversed") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "create: pointer handed on"); if (null_) ENSURE(a4 == 0 || !strict_, "create: no array given"); else AEQ(a4, 4, "create: array reversed") *a5 = os_[5]; return (logical)rv_; }
static void f_NGA_Create(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 0, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0], 4, 0, 1); rv_ = vs_int("ret", 0, 1); os_[5] = OUT1_int("h"); ENSURE(NGA_Create(v0, v1, v2, v3, null_ ? 0 : v4) == (rv_ ? os_[5] : 0), "NGA_Create: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create: the caller's array is unchanged") UNCH(v4, nd_[0], 4, "NGA_Create: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create: done by one call"); } }
static void f_NGA_Create64(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0], 4, 0, 1); rv_ = vs_int("ret", 0, 1); os_[5] = OUT1_int("h"); ENSURE(NGA_Create64(v0, v1, v2, v3, null_ ? 0 : v4) == (rv_ ? os_[5] : 0), "NGA_Create64: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create64: the caller's array is unchanged") UNCH(v4, nd_[0], 4, "NGA_Create64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create64: done by one call"); } }
logical pnga_create_config(Integer a0, Integer a1, Integer *a2, char* a3, Integer *a4, Integer a5, Integer *a6) { ncall_++; ENSURE(a0 == es_[0], "create_config: scalar argument handed on"); ENSURE(a1 == es_[1], "create_config: scalar argument handed on"); AEQ(a2, 2, "create_config: array reversed") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "create_config: pointer handed on"); if (null_) ENSURE(a4 == 0 || !strict_, "create_config: no array given"); else AEQ(a4, 4, "create_config: array reversed") ENSURE(a5 == es_[5], "create_config: scalar argument handed on"); *a6 = os_[6]; return (logical)rv_; }
static void f_NGA_Create_config(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 0, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0], 4, 0, 1); int v5 = VAL_int("s5"); es_[5] = (Integer)v5; rv_ = vs_int("ret", 0, 1); os_[6] = OUT1_int("h"); ENSURE(NGA_Create_config(v0, v1, v2, v3, null_ ? 0 : v4, v5) == (rv_ ? os_[6] : 0), "NGA_Create_config: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create_config: the caller's array is unchanged") UNCH(v4, nd_[0], 4, "NGA_Create_config: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create_config: done by one call"); } }
static void f_NGA_Create_config64(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0], 4, 0, 1); int v5 = VAL_int("s5"); es_[5] = (Integer)v5; rv_ = vs_int("ret", 0, 1); os_[6] = OUT1_int("h"); ENSURE(NGA_Create_config64(v0, v1, v2, v3, null_ ? 0 : v4, v5) == (rv_ ? os_[6] : 0), "NGA_Create_config64: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create_config64: the caller's array is unchanged") UNCH(v4, nd_[0], 4, "NGA_Create_config64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create_config64: done by one call"); } }
logical pnga_create_ghosts(Integer a0, Integer a1, Integer *a2, Integer *a3, char* a4, Integer *a5, Integer *a6) { ncall_++; ENSURE(a0 == es_[0], "create_ghosts: scalar argument handed on"); ENSURE(a1 == es_[1], "create_ghosts: scalar argument handed on"); AEQ(a2, 2, "create_ghosts: array reversed") AEQ(a3, 3, "create_ghosts: array reversed") if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "create_ghosts: pointer handed on"); if (null_) ENSURE(a5 == 0 || !strict_, "create_ghosts: no array given"); else AEQ(a5, 5, "create_ghosts: array reversed") *a6 = os_[6]; return (logical)rv_; }
static void f_NGA_Create_ghosts(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 0, 1); int *v3 = IN_int("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int *v5 = IN_int("a5", nd_[0], 5, 0, 1); rv_ = vs_int("ret", 0, 1); os_[6] = OUT1_int("h"); ENSURE(NGA_Create_ghosts(v0, v1, v2, v3, v4, null_ ? 0 : v5) == (rv_ ? os_[6] : 0), "NGA_Create_ghosts: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create_ghosts: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Create_ghosts: the caller's array is unchanged") UNCH(v5, nd_[0], 5, "NGA_Create_ghosts: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create_ghosts: done by one call"); } }
static void f_NGA_Create_ghosts64(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int64_t *v5 = IN_i64("a5", nd_[0], 5, 0, 1); rv_ = vs_int("ret", 0, 1); os_[6] = OUT1_int("h"); ENSURE(NGA_Create_ghosts64(v0, v1, v2, v3, v4, null_ ? 0 : v5) == (rv_ ? os_[6] : 0), "NGA_Create_ghosts64: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create_ghosts64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Create_ghosts64: the caller's array is unchanged") UNCH(v5, nd_[0], 5, "NGA_Create_ghosts64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create_ghosts64: done by one call"); } }
logical pnga_create_ghosts_config(Integer a0, Integer a1, Integer *a2, Integer *a3, char* a4, Integer *a5, Integer a6, Integer *a7) { ncall_++; ENSURE(a0 == es_[0], "create_ghosts_config: scalar argument handed on"); ENSURE(a1 == es_[1], "create_ghosts_config: scalar argument handed on"); AEQ(a2, 2, "create_ghosts_config: array reversed") AEQ(a3, 3, "create_ghosts_config: array reversed") if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "create_ghosts_config: pointer handed on"); if (null_) ENSURE(a5 == 0 || !strict_, "create_ghosts_config: no array given"); else AEQ(a5, 5, "create_ghosts_config: array reversed") ENSURE(a6 == es_[6], "create_ghosts_config: scalar argument handed on"); *a7 = os_[7]; return (logical)rv_; }
static void f_NGA_Create_ghosts_config(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 0, 1); int *v3 = IN_int("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int *v5 = IN_int("a5", nd_[0], 5, 0, 1); int v6 = VAL_int("s6"); es_[6] = (Integer)v6; rv_ = vs_int("ret", 0, 1); os_[7] = OUT1_int("h"); ENSURE(NGA_Create_ghosts_config(v0, v1, v2, v3, v4, null_ ? 0 : v5, v6) == (rv_ ? os_[7] : 0), "NGA_Create_ghosts_config: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create_ghosts_config: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Create_ghosts_config: the caller's array is unchanged") UNCH(v5, nd_[0], 5, "NGA_Create_ghosts_config: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create_ghosts_config: done by one call"); } }
static void f_NGA_Create_ghosts_config64(void) { OWN strict_ = 1; START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = nd_[0]; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int64_t *v5 = IN_i64("a5", nd_[0], 5, 0, 1); int v6 = VAL_int("s6"); es_[6] = (Integer)v6; rv_ = vs_int("ret", 0, 1); os_[7] = OUT1_int("h"); ENSURE(NGA_Create_ghosts_config64(v0, v1, v2, v3, v4, null_ ? 0 : v5, v6) == (rv_ ? os_[7] : 0), "NGA_Create_ghosts_config64: the new handle or zero"); UNCH(v2, nd_[0], 2, "NGA_Create_ghosts_config64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Create_ghosts_config64: the caller's array is unchanged") UNCH(v5, nd_[0], 5, "NGA_Create_ghosts_config64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Create_ghosts_config64: done by one call"); } }
void pnga_set_data(Integer a0, Integer a1, Integer *a2, Integer a3) { ncall_++; ENSURE(a0 == es_[0], "set_data: handle handed on"); ENSURE(a1 == es_[1], "set_data: scalar argument handed on"); AEQ(a2, 2, "set_data: array reversed") ENSURE(a3 == es_[3], "set_data: scalar argument handed on"); }
static void f_GA_Set_data(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = nd_[0]; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 0, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; GA_Set_data(v0, v1, v2, v3); UNCH(v2, nd_[0], 2, "GA_Set_data: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_data: done by one call"); } }
static void f_GA_Set_data64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = nd_[0]; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; GA_Set_data64(v0, v1, v2, v3); UNCH(v2, nd_[0], 2, "GA_Set_data64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_data64: done by one call"); } }
static void f_NGA_Set_data(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = nd_[0]; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 0, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; NGA_Set_data(v0, v1, v2, v3); UNCH(v2, nd_[0], 2, "NGA_Set_data: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_data: done by one call"); } }
static void f_NGA_Set_data64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = nd_[0]; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; NGA_Set_data64(v0, v1, v2, v3); UNCH(v2, nd_[0], 2, "NGA_Set_data64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_data64: done by one call"); } }
void pnga_set_chunk(Integer a0, Integer *a1) { ncall_++; ENSURE(a0 == es_[0], "set_chunk: handle handed on"); if (null_) ENSURE(a1 == 0 || !strict_, "set_chunk: no array given"); else AEQ(a1, 1, "set_chunk: array reversed") }
static void f_GA_Set_chunk(void) { OWN strict_ = 1; START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); GA_Set_chunk(v0, null_ ? 0 : v1); UNCH(v1, nd_[0], 1, "GA_Set_chunk: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_chunk: done by one call"); } }
static void f_GA_Set_chunk64(void) { OWN strict_ = 1; START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); GA_Set_chunk64(v0, null_ ? 0 : v1); UNCH(v1, nd_[0], 1, "GA_Set_chunk64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_chunk64: done by one call"); } }
static void f_NGA_Set_chunk(void) { OWN strict_ = 1; START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); NGA_Set_chunk(v0, null_ ? 0 : v1); UNCH(v1, nd_[0], 1, "NGA_Set_chunk: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_chunk: done by one call"); } }
static void f_NGA_Set_chunk64(void) { OWN strict_ = 1; START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); NGA_Set_chunk64(v0, null_ ? 0 : v1); UNCH(v1, nd_[0], 1, "NGA_Set_chunk64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_chunk64: done by one call"); } }
void pnga_set_block_cyclic(Integer a0, Integer *a1) { ncall_++; ENSURE(a0 == es_[0], "set_block_cyclic: handle handed on"); AEQ(a1, 1, "set_block_cyclic: array reversed") }
static void f_GA_Set_block_cyclic(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); GA_Set_block_cyclic(v0, v1); UNCH(v1, nd_[0], 1, "GA_Set_block_cyclic: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_block_cyclic: done by one call"); } }
static void f_GA_Set_block_cyclic64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); GA_Set_block_cyclic64(v0, v1); UNCH(v1, nd_[0], 1, "GA_Set_block_cyclic64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_block_cyclic64: done by one call"); } }
static void f_NGA_Set_block_cyclic(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); NGA_Set_block_cyclic(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Set_block_cyclic: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_block_cyclic: done by one call"); } }
static void f_NGA_Set_block_cyclic64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); NGA_Set_block_cyclic64(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Set_block_cyclic64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_block_cyclic64: done by one call"); } }
void pnga_set_block_cyclic_proc_grid(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "set_block_cyclic_proc_grid: handle handed on"); AEQ(a1, 1, "set_block_cyclic_proc_grid: array reversed") AEQ(a2, 2, "set_block_cyclic_proc_grid: array reversed") }
static void f_GA_Set_block_cyclic_proc_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); int *v2 = IN_int("a2", nd_[0], 2, 0, 1); GA_Set_block_cyclic_proc_grid(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Set_block_cyclic_proc_grid: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Set_block_cyclic_proc_grid: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_block_cyclic_proc_grid: done by one call"); } }
static void f_GA_Set_block_cyclic_proc_grid64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); GA_Set_block_cyclic_proc_grid64(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Set_block_cyclic_proc_grid64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Set_block_cyclic_proc_grid64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_block_cyclic_proc_grid64: done by one call"); } }
static void f_NGA_Set_block_cyclic_proc_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); int *v2 = IN_int("a2", nd_[0], 2, 0, 1); NGA_Set_block_cyclic_proc_grid(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Set_block_cyclic_proc_grid: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Set_block_cyclic_proc_grid: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_block_cyclic_proc_grid: done by one call"); } }
static void f_NGA_Set_block_cyclic_proc_grid64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); NGA_Set_block_cyclic_proc_grid64(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Set_block_cyclic_proc_grid64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Set_block_cyclic_proc_grid64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_block_cyclic_proc_grid64: done by one call"); } }
void pnga_set_tiled_proc_grid(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "set_tiled_proc_grid: handle handed on"); AEQ(a1, 1, "set_tiled_proc_grid: array reversed") AEQ(a2, 2, "set_tiled_proc_grid: array reversed") }
static void f_GA_Set_tiled_proc_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); int *v2 = IN_int("a2", nd_[0], 2, 0, 1); GA_Set_tiled_proc_grid(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Set_tiled_proc_grid: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Set_tiled_proc_grid: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_tiled_proc_grid: done by one call"); } }
static void f_GA_Set_tiled_proc_grid64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); GA_Set_tiled_proc_grid64(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Set_tiled_proc_grid64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Set_tiled_proc_grid64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_tiled_proc_grid64: done by one call"); } }
static void f_NGA_Set_tiled_proc_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); int *v2 = IN_int("a2", nd_[0], 2, 0, 1); NGA_Set_tiled_proc_grid(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Set_tiled_proc_grid: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Set_tiled_proc_grid: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_tiled_proc_grid: done by one call"); } }
static void f_NGA_Set_tiled_proc_grid64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 0, 1); NGA_Set_tiled_proc_grid64(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Set_tiled_proc_grid64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Set_tiled_proc_grid64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_tiled_proc_grid64: done by one call"); } }
void pnga_set_ghosts(Integer a0, Integer *a1) { ncall_++; ENSURE(a0 == es_[0], "set_ghosts: handle handed on"); AEQ(a1, 1, "set_ghosts: array reversed") }
static void f_GA_Set_ghosts(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); GA_Set_ghosts(v0, v1); UNCH(v1, nd_[0], 1, "GA_Set_ghosts: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_ghosts: done by one call"); } }
static void f_GA_Set_ghosts64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); GA_Set_ghosts64(v0, v1); UNCH(v1, nd_[0], 1, "GA_Set_ghosts64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_ghosts64: done by one call"); } }
static void f_NGA_Set_ghosts(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); NGA_Set_ghosts(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Set_ghosts: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_ghosts: done by one call"); } }
static void f_NGA_Set_ghosts64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); NGA_Set_ghosts64(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Set_ghosts64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_ghosts64: done by one call"); } }
void pnga_get_block_info(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "get_block_info: handle handed on"); AOUT(a1, 1) AOUT(a2, 2) }
static void f_GA_Get_block_info(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = OUT_int("o1", nd_[0], 1); int *v2 = OUT_int("o2", nd_[0], 2); GA_Get_block_info(v0, v1, v2); OEQ(v1, nd_[0], 1, , "GA_Get_block_info: array handed back reversed") OEQ(v2, nd_[0], 2, , "GA_Get_block_info: array handed back reversed") ENSURE(ncall_ == 1, "GA_Get_block_info: done by one call"); } }
static void f_NGA_Get_block_info(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = OUT_int("o1", nd_[0], 1); int *v2 = OUT_int("o2", nd_[0], 2); NGA_Get_block_info(v0, v1, v2); OEQ(v1, nd_[0], 1, , "NGA_Get_block_info: array handed back reversed") OEQ(v2, nd_[0], 2, , "NGA_Get_block_info: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Get_block_info: done by one call"); } }
void pnga_merge_distr_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5) { ncall_++; ENSURE(a0 == es_[0], "merge_distr_patch: handle handed on"); AEQ(a1, 1, "merge_distr_patch: index reversed and counted from one") AEQ(a2, 2, "merge_distr_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "merge_distr_patch: handle handed on"); AEQ(a4, 4, "merge_distr_patch: index reversed and counted from one") AEQ(a5, 5, "merge_distr_patch: index reversed and counted from one") }
static void f_NGA_Merge_distr_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); NGA_Merge_distr_patch(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Merge_distr_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Merge_distr_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "NGA_Merge_distr_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "NGA_Merge_distr_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Merge_distr_patch: done by one call"); } }
static void f_NGA_Merge_distr_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); NGA_Merge_distr_patch64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Merge_distr_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Merge_distr_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "NGA_Merge_distr_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "NGA_Merge_distr_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Merge_distr_patch64: done by one call"); } }
void pnga_get_ghost_block(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4) { ncall_++; ENSURE(a0 == es_[0], "get_ghost_block: handle handed on"); AEQ(a1, 1, "get_ghost_block: index reversed and counted from one") AEQ(a2, 2, "get_ghost_block: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "get_ghost_block: pointer handed on"); AEQ(a4, 4, "get_ghost_block: leading dimensions reversed") }
static void f_NGA_Get_ghost_block(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); NGA_Get_ghost_block(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Get_ghost_block: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Get_ghost_block: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Get_ghost_block: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Get_ghost_block: done by one call"); } }
static void f_NGA_Get_ghost_block64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); NGA_Get_ghost_block64(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Get_ghost_block64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Get_ghost_block64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Get_ghost_block64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Get_ghost_block64: done by one call"); } }
void pnga_get(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4) { ncall_++; ENSURE(a0 == es_[0], "get: handle handed on"); AEQ(a1, 1, "get: index reversed and counted from one") AEQ(a2, 2, "get: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "get: pointer handed on"); AEQ(a4, 4, "get: leading dimensions reversed") }
static void f_NGA_Get(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); NGA_Get(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Get: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Get: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Get: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Get: done by one call"); } }
static void f_NGA_Get64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); NGA_Get64(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Get64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Get64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Get64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Get64: done by one call"); } }
void pnga_put(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4) { ncall_++; ENSURE(a0 == es_[0], "put: handle handed on"); AEQ(a1, 1, "put: index reversed and counted from one") AEQ(a2, 2, "put: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "put: pointer handed on"); AEQ(a4, 4, "put: leading dimensions reversed") }
static void f_NGA_Put(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); NGA_Put(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Put: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Put: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Put: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Put: done by one call"); } }
static void f_NGA_Put64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); NGA_Put64(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Put64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Put64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Put64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Put64: done by one call"); } }
void pnga_nbget(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4, Integer *a5) { ncall_++; ENSURE(a0 == es_[0], "nbget: handle handed on"); AEQ(a1, 1, "nbget: index reversed and counted from one") AEQ(a2, 2, "nbget: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "nbget: pointer handed on"); AEQ(a4, 4, "nbget: leading dimensions reversed") if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "nbget: pointer handed on"); }
static void f_NGA_NbGet(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_NbGet(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_NbGet: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_NbGet: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_NbGet: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbGet: done by one call"); } }
static void f_NGA_NbGet64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_NbGet64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_NbGet64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_NbGet64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_NbGet64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbGet64: done by one call"); } }
void pnga_nbput(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4, Integer *a5) { ncall_++; ENSURE(a0 == es_[0], "nbput: handle handed on"); AEQ(a1, 1, "nbput: index reversed and counted from one") AEQ(a2, 2, "nbput: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "nbput: pointer handed on"); AEQ(a4, 4, "nbput: leading dimensions reversed") if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "nbput: pointer handed on"); }
static void f_NGA_NbPut(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_NbPut(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_NbPut: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_NbPut: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_NbPut: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbPut: done by one call"); } }
static void f_NGA_NbPut64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_NbPut64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_NbPut64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_NbPut64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_NbPut64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbPut64: done by one call"); } }
void pnga_acc(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4, void *a5) { ncall_++; ENSURE(a0 == es_[0], "acc: handle handed on"); AEQ(a1, 1, "acc: index reversed and counted from one") AEQ(a2, 2, "acc: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "acc: pointer handed on"); AEQ(a4, 4, "acc: leading dimensions reversed") if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "acc: pointer handed on"); }
static void f_NGA_Acc(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_Acc(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Acc: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Acc: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Acc: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Acc: done by one call"); } }
static void f_NGA_Acc64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_Acc64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Acc64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Acc64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Acc64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Acc64: done by one call"); } }
void pnga_nbacc(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4, void *a5, Integer *a6) { ncall_++; ENSURE(a0 == es_[0], "nbacc: handle handed on"); AEQ(a1, 1, "nbacc: index reversed and counted from one") AEQ(a2, 2, "nbacc: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "nbacc: pointer handed on"); AEQ(a4, 4, "nbacc: leading dimensions reversed") if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "nbacc: pointer handed on"); if (ep_[6] != ANY) ENSURE((const void*)a6 == ep_[6], "nbacc: pointer handed on"); }
static void f_NGA_NbAcc(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; void *v6 = buf_ + 48; ep_[6] = v6; NGA_NbAcc(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "NGA_NbAcc: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_NbAcc: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_NbAcc: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbAcc: done by one call"); } }
static void f_NGA_NbAcc64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; void *v6 = buf_ + 48; ep_[6] = v6; NGA_NbAcc64(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "NGA_NbAcc64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_NbAcc64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_NbAcc64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbAcc64: done by one call"); } }
void pnga_strided_acc(Integer a0, Integer *a1, Integer *a2, Integer *a3, void *a4, Integer *a5, void *a6) { ncall_++; ENSURE(a0 == es_[0], "strided_acc: handle handed on"); AEQ(a1, 1, "strided_acc: index reversed and counted from one") AEQ(a2, 2, "strided_acc: index reversed and counted from one") AEQ(a3, 3, "strided_acc: array reversed") if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "strided_acc: pointer handed on"); AEQ(a5, 5, "strided_acc: leading dimensions reversed") if (ep_[6] != ANY) ENSURE((const void*)a6 == ep_[6], "strided_acc: pointer handed on"); }
static void f_NGA_Strided_acc(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int *v5 = IN_int("a5", nd_[0] - 1, 5, 0, 1); void *v6 = buf_ + 48; ep_[6] = v6; NGA_Strided_acc(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "NGA_Strided_acc: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Strided_acc: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Strided_acc: the caller's array is unchanged") UNCH(v5, nd_[0] - 1, 5, "NGA_Strided_acc: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Strided_acc: done by one call"); } }
static void f_NGA_Strided_acc64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int64_t *v5 = IN_i64("a5", nd_[0] - 1, 5, 0, 1); void *v6 = buf_ + 48; ep_[6] = v6; NGA_Strided_acc64(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "NGA_Strided_acc64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Strided_acc64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Strided_acc64: the caller's array is unchanged") UNCH(v5, nd_[0] - 1, 5, "NGA_Strided_acc64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Strided_acc64: done by one call"); } }
void pnga_strided_get(Integer a0, Integer *a1, Integer *a2, Integer *a3, void *a4, Integer *a5) { ncall_++; ENSURE(a0 == es_[0], "strided_get: handle handed on"); AEQ(a1, 1, "strided_get: index reversed and counted from one") AEQ(a2, 2, "strided_get: index reversed and counted from one") AEQ(a3, 3, "strided_get: array reversed") if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "strided_get: pointer handed on"); AEQ(a5, 5, "strided_get: leading dimensions reversed") }
static void f_NGA_Strided_get(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int *v5 = IN_int("a5", nd_[0] - 1, 5, 0, 1); NGA_Strided_get(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Strided_get: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Strided_get: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Strided_get: the caller's array is unchanged") UNCH(v5, nd_[0] - 1, 5, "NGA_Strided_get: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Strided_get: done by one call"); } }
static void f_NGA_Strided_get64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int64_t *v5 = IN_i64("a5", nd_[0] - 1, 5, 0, 1); NGA_Strided_get64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Strided_get64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Strided_get64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Strided_get64: the caller's array is unchanged") UNCH(v5, nd_[0] - 1, 5, "NGA_Strided_get64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Strided_get64: done by one call"); } }
void pnga_strided_put(Integer a0, Integer *a1, Integer *a2, Integer *a3, void *a4, Integer *a5) { ncall_++; ENSURE(a0 == es_[0], "strided_put: handle handed on"); AEQ(a1, 1, "strided_put: index reversed and counted from one") AEQ(a2, 2, "strided_put: index reversed and counted from one") AEQ(a3, 3, "strided_put: array reversed") if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "strided_put: pointer handed on"); AEQ(a5, 5, "strided_put: leading dimensions reversed") }
static void f_NGA_Strided_put(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int *v5 = IN_int("a5", nd_[0] - 1, 5, 0, 1); NGA_Strided_put(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Strided_put: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Strided_put: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Strided_put: the caller's array is unchanged") UNCH(v5, nd_[0] - 1, 5, "NGA_Strided_put: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Strided_put: done by one call"); } }
static void f_NGA_Strided_put64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 0, 1); void *v4 = buf_ + 32; ep_[4] = v4; int64_t *v5 = IN_i64("a5", nd_[0] - 1, 5, 0, 1); NGA_Strided_put64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Strided_put64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Strided_put64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Strided_put64: the caller's array is unchanged") UNCH(v5, nd_[0] - 1, 5, "NGA_Strided_put64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Strided_put64: done by one call"); } }
void pnga_periodic(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4, void *a5, Integer a6) { ncall_++; ENSURE(a0 == es_[0], "periodic: handle handed on"); AEQ(a1, 1, "periodic: index reversed and counted from one") AEQ(a2, 2, "periodic: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "periodic: pointer handed on"); AEQ(a4, 4, "periodic: leading dimensions reversed") if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "periodic: pointer handed on"); op_ = a6; }
static void f_NGA_Periodic_get(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); ep_[5] = ANY; NGA_Periodic_get(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Periodic_get: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Periodic_get: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Periodic_get: the caller's array is unchanged") ENSURE(op_ == PERIODIC_GET, "NGA_Periodic_get: the operation asked for"); ENSURE(ncall_ == 1, "NGA_Periodic_get: done by one call"); } }
static void f_NGA_Periodic_get64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); ep_[5] = ANY; NGA_Periodic_get64(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Periodic_get64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Periodic_get64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Periodic_get64: the caller's array is unchanged") ENSURE(op_ == PERIODIC_GET, "NGA_Periodic_get64: the operation asked for"); ENSURE(ncall_ == 1, "NGA_Periodic_get64: done by one call"); } }
static void f_NGA_Periodic_put(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); ep_[5] = ANY; NGA_Periodic_put(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Periodic_put: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Periodic_put: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Periodic_put: the caller's array is unchanged") ENSURE(op_ == PERIODIC_PUT, "NGA_Periodic_put: the operation asked for"); ENSURE(ncall_ == 1, "NGA_Periodic_put: done by one call"); } }
static void f_NGA_Periodic_put64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); ep_[5] = ANY; NGA_Periodic_put64(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Periodic_put64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Periodic_put64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Periodic_put64: the caller's array is unchanged") ENSURE(op_ == PERIODIC_PUT, "NGA_Periodic_put64: the operation asked for"); ENSURE(ncall_ == 1, "NGA_Periodic_put64: done by one call"); } }
static void f_NGA_Periodic_acc(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = IN_int("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_Periodic_acc(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Periodic_acc: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Periodic_acc: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Periodic_acc: the caller's array is unchanged") ENSURE(op_ == PERIODIC_ACC, "NGA_Periodic_acc: the operation asked for"); ENSURE(ncall_ == 1, "NGA_Periodic_acc: done by one call"); } }
static void f_NGA_Periodic_acc64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[0] - 1, 4, 0, 1); void *v5 = buf_ + 40; ep_[5] = v5; NGA_Periodic_acc64(v0, v1, v2, v3, v4, v5); UNCH(v1, nd_[0], 1, "NGA_Periodic_acc64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Periodic_acc64: the caller's array is unchanged") UNCH(v4, nd_[0] - 1, 4, "NGA_Periodic_acc64: the caller's array is unchanged") ENSURE(op_ == PERIODIC_ACC, "NGA_Periodic_acc64: the operation asked for"); ENSURE(ncall_ == 1, "NGA_Periodic_acc64: done by one call"); } }
Integer pnga_read_inc(Integer a0, Integer *a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "read_inc: handle handed on"); AEQ(a1, 1, "read_inc: index reversed and counted from one") ENSURE(a2 == es_[2], "read_inc: scalar argument handed on"); return (Integer)rv_; }
static void f_NGA_Read_inc(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); long v2 = VAL_long("s2"); es_[2] = (Integer)v2; rv_ = VAL_long("ret"); ENSURE(NGA_Read_inc(v0, v1, v2) == (long)rv_, "NGA_Read_inc: value handed back"); UNCH(v1, nd_[0], 1, "NGA_Read_inc: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Read_inc: done by one call"); } }
static void f_NGA_Read_inc64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); long v2 = VAL_long("s2"); es_[2] = (Integer)v2; rv_ = VAL_long("ret"); ENSURE(NGA_Read_inc64(v0, v1, v2) == (long)rv_, "NGA_Read_inc64: value handed back"); UNCH(v1, nd_[0], 1, "NGA_Read_inc64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Read_inc64: done by one call"); } }
void pnga_distribution(Integer a0, Integer a1, Integer *a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "distribution: handle handed on"); ENSURE(a1 == es_[1], "distribution: scalar argument handed on"); AOUT(a2, 2) AOUT(a3, 3) }
static void f_NGA_Distribution(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int *v2 = OUT_int("o2", nd_[0], 2); int *v3 = OUT_int("o3", nd_[0], 3); NGA_Distribution(v0, v1, v2, v3); OEQ(v2, nd_[0], 2, - 1, "NGA_Distribution: index handed back reversed and counted from zero") OEQ(v3, nd_[0], 3, - 1, "NGA_Distribution: index handed back reversed and counted from zero") ENSURE(ncall_ == 1, "NGA_Distribution: done by one call"); } }
static void f_NGA_Distribution64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int64_t *v2 = OUT_i64("o2", nd_[0], 2); int64_t *v3 = OUT_i64("o3", nd_[0], 3); NGA_Distribution64(v0, v1, v2, v3); OEQ(v2, nd_[0], 2, - 1, "NGA_Distribution64: index handed back reversed and counted from zero") OEQ(v3, nd_[0], 3, - 1, "NGA_Distribution64: index handed back reversed and counted from zero") ENSURE(ncall_ == 1, "NGA_Distribution64: done by one call"); } }
void pnga_select_elem(Integer a0, char* a1, void* a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "select_elem: handle handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "select_elem: pointer handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "select_elem: pointer handed on"); AOUT(a3, 3) }
static void f_NGA_Select_elem(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; void *v1 = buf_ + 8; ep_[1] = v1; void *v2 = buf_ + 16; ep_[2] = v2; int *v3 = OUT_int("o3", nd_[0], 3); NGA_Select_elem(v0, v1, v2, v3); OEQ(v3, nd_[0], 3, - 1, "NGA_Select_elem: index handed back reversed and counted from zero") ENSURE(ncall_ == 1, "NGA_Select_elem: done by one call"); } }
static void f_NGA_Select_elem64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; void *v1 = buf_ + 8; ep_[1] = v1; void *v2 = buf_ + 16; ep_[2] = v2; int64_t *v3 = OUT_i64("o3", nd_[0], 3); NGA_Select_elem64(v0, v1, v2, v3); OEQ(v3, nd_[0], 3, - 1, "NGA_Select_elem64: index handed back reversed and counted from zero") ENSURE(ncall_ == 1, "NGA_Select_elem64: done by one call"); } }
void pnga_scan_add(Integer a0, Integer a1, Integer a2, Integer a3, Integer a4, Integer a5) { ncall_++; ENSURE(a0 == es_[0], "scan_add: handle handed on"); ENSURE(a1 == es_[1], "scan_add: handle handed on"); ENSURE(a2 == es_[2], "scan_add: handle handed on"); ENSURE(a3 == es_[3], "scan_add: index argument counted from one"); ENSURE(a4 == es_[4], "scan_add: index argument counted from one"); ENSURE(a5 == es_[5], "scan_add: scalar argument handed on"); }
static void f_GA_Scan_add(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3 + 1; int v4 = VAL_int("s4"); es_[4] = (Integer)v4 + 1; int v5 = VAL_int("s5"); es_[5] = (Integer)v5; GA_Scan_add(v0, v1, v2, v3, v4, v5);  ENSURE(ncall_ == 1, "GA_Scan_add: done by one call"); } }
static void f_GA_Scan_add64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int64_t v3 = VAL_long("s3"); es_[3] = (Integer)v3 + 1; int64_t v4 = VAL_long("s4"); es_[4] = (Integer)v4 + 1; int v5 = VAL_int("s5"); es_[5] = (Integer)v5; GA_Scan_add64(v0, v1, v2, v3, v4, v5);  ENSURE(ncall_ == 1, "GA_Scan_add64: done by one call"); } }
void pnga_scan_copy(Integer a0, Integer a1, Integer a2, Integer a3, Integer a4) { ncall_++; ENSURE(a0 == es_[0], "scan_copy: handle handed on"); ENSURE(a1 == es_[1], "scan_copy: handle handed on"); ENSURE(a2 == es_[2], "scan_copy: handle handed on"); ENSURE(a3 == es_[3], "scan_copy: index argument counted from one"); ENSURE(a4 == es_[4], "scan_copy: index argument counted from one"); }
static void f_GA_Scan_copy(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3 + 1; int v4 = VAL_int("s4"); es_[4] = (Integer)v4 + 1; GA_Scan_copy(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Scan_copy: done by one call"); } }
static void f_GA_Scan_copy64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int64_t v3 = VAL_long("s3"); es_[3] = (Integer)v3 + 1; int64_t v4 = VAL_long("s4"); es_[4] = (Integer)v4 + 1; GA_Scan_copy64(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Scan_copy64: done by one call"); } }
void pnga_patch_enum(Integer a0, Integer a1, Integer a2, void* a3, void* a4) { ncall_++; ENSURE(a0 == es_[0], "patch_enum: handle handed on"); ENSURE(a1 == es_[1], "patch_enum: index argument counted from one"); ENSURE(a2 == es_[2], "patch_enum: index argument counted from one"); if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "patch_enum: pointer handed on"); if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "patch_enum: pointer handed on"); }
static void f_GA_Patch_enum(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1 + 1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2 + 1; void *v3 = buf_ + 24; ep_[3] = v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Patch_enum(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Patch_enum: done by one call"); } }
static void f_GA_Patch_enum64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t v1 = VAL_long("s1"); es_[1] = (Integer)v1 + 1; int64_t v2 = VAL_long("s2"); es_[2] = (Integer)v2 + 1; void *v3 = buf_ + 24; ep_[3] = v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Patch_enum64(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Patch_enum64: done by one call"); } }
void pnga_pack(Integer a0, Integer a1, Integer a2, Integer a3, Integer a4, Integer* a5) { ncall_++; ENSURE(a0 == es_[0], "pack: handle handed on"); ENSURE(a1 == es_[1], "pack: handle handed on"); ENSURE(a2 == es_[2], "pack: handle handed on"); ENSURE(a3 == es_[3], "pack: index argument counted from one"); ENSURE(a4 == es_[4], "pack: index argument counted from one"); *a5 = os_[5]; }
static void f_GA_Pack(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3 + 1; int v4 = VAL_int("s4"); es_[4] = (Integer)v4 + 1; int v5 = 0; os_[5] = OUT1_int("o5"); GA_Pack(v0, v1, v2, v3, v4, &v5); ENSURE(v5 == os_[5], "GA_Pack: scalar result handed back"); ENSURE(ncall_ == 1, "GA_Pack: done by one call"); } }
static void f_GA_Pack64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int64_t v3 = VAL_long("s3"); es_[3] = (Integer)v3 + 1; int64_t v4 = VAL_long("s4"); es_[4] = (Integer)v4 + 1; int64_t v5 = 0; os_[5] = OUT1_long("o5"); GA_Pack64(v0, v1, v2, v3, v4, &v5); ENSURE(v5 == os_[5], "GA_Pack64: scalar result handed back"); ENSURE(ncall_ == 1, "GA_Pack64: done by one call"); } }
void pnga_unpack(Integer a0, Integer a1, Integer a2, Integer a3, Integer a4, Integer* a5) { ncall_++; ENSURE(a0 == es_[0], "unpack: handle handed on"); ENSURE(a1 == es_[1], "unpack: handle handed on"); ENSURE(a2 == es_[2], "unpack: handle handed on"); ENSURE(a3 == es_[3], "unpack: index argument counted from one"); ENSURE(a4 == es_[4], "unpack: index argument counted from one"); *a5 = os_[5]; }
static void f_GA_Unpack(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3 + 1; int v4 = VAL_int("s4"); es_[4] = (Integer)v4 + 1; int v5 = 0; os_[5] = OUT1_int("o5"); GA_Unpack(v0, v1, v2, v3, v4, &v5); ENSURE(v5 == os_[5], "GA_Unpack: scalar result handed back"); ENSURE(ncall_ == 1, "GA_Unpack: done by one call"); } }
static void f_GA_Unpack64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; int v2 = G0_ + 2; es_[2] = v2; int64_t v3 = VAL_long("s3"); es_[3] = (Integer)v3 + 1; int64_t v4 = VAL_long("s4"); es_[4] = (Integer)v4 + 1; int64_t v5 = 0; os_[5] = OUT1_long("o5"); GA_Unpack64(v0, v1, v2, v3, v4, &v5); ENSURE(v5 == os_[5], "GA_Unpack64: scalar result handed back"); ENSURE(ncall_ == 1, "GA_Unpack64: done by one call"); } }
void pnga_access_ptr(Integer a0, Integer *a1, Integer *a2, void *a3, Integer *a4) { ncall_++; ENSURE(a0 == es_[0], "access_ptr: handle handed on"); AEQ(a1, 1, "access_ptr: index reversed and counted from one") AEQ(a2, 2, "access_ptr: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "access_ptr: pointer handed on"); AOUT(a4, 4) }
static void f_NGA_Access(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int *v4 = OUT_int("o4", nd_[0] - 1, 4); NGA_Access(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Access: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Access: the caller's array is unchanged") OEQ(v4, nd_[0] - 1, 4, , "NGA_Access: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access: done by one call"); } }
static void f_NGA_Access64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; int64_t *v4 = OUT_i64("o4", nd_[0] - 1, 4); NGA_Access64(v0, v1, v2, v3, v4); UNCH(v1, nd_[0], 1, "NGA_Access64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Access64: the caller's array is unchanged") OEQ(v4, nd_[0] - 1, 4, , "NGA_Access64: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access64: done by one call"); } }
void pnga_access_block_ptr(Integer a0, Integer a1, void* a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "access_block_ptr: handle handed on"); ENSURE(a1 == es_[1], "access_block_ptr: scalar argument handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "access_block_ptr: pointer handed on"); AOUT(a3, 3) }
static void f_NGA_Access_block(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int *v3 = OUT_int("o3", nd_[0] - 1, 3); NGA_Access_block(v0, v1, v2, v3); OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_block: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_block: done by one call"); } }
static void f_NGA_Access_block64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t v1 = VAL_long("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int64_t *v3 = OUT_i64("o3", nd_[0] - 1, 3); NGA_Access_block64(v0, v1, v2, v3); OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_block64: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_block64: done by one call"); } }
void pnga_access_block_grid_ptr(Integer a0, Integer *a1, void* a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "access_block_grid_ptr: handle handed on"); AEQ(a1, 1, "access_block_grid_ptr: array reversed") if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "access_block_grid_ptr: pointer handed on"); AOUT(a3, 3) }
static void f_NGA_Access_block_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); void *v2 = buf_ + 16; ep_[2] = v2; int *v3 = OUT_int("o3", nd_[0] - 1, 3); NGA_Access_block_grid(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Access_block_grid: the caller's array is unchanged") OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_block_grid: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_block_grid: done by one call"); } }
static void f_NGA_Access_block_grid64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); void *v2 = buf_ + 16; ep_[2] = v2; int64_t *v3 = OUT_i64("o3", nd_[0] - 1, 3); NGA_Access_block_grid64(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Access_block_grid64: the caller's array is unchanged") OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_block_grid64: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_block_grid64: done by one call"); } }
void pnga_access_block_segment_ptr(Integer a0, Integer a1, void* a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "access_block_segment_ptr: handle handed on"); ENSURE(a1 == es_[1], "access_block_segment_ptr: scalar argument handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "access_block_segment_ptr: pointer handed on"); *a3 = os_[3]; }
static void f_NGA_Access_block_segment(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = 0; os_[3] = OUT1_int("o3"); NGA_Access_block_segment(v0, v1, v2, &v3); ENSURE(v3 == os_[3], "NGA_Access_block_segment: scalar result handed back"); ENSURE(ncall_ == 1, "NGA_Access_block_segment: done by one call"); } }
static void f_NGA_Access_block_segment64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int64_t v3 = 0; os_[3] = OUT1_long("o3"); NGA_Access_block_segment64(v0, v1, v2, &v3); ENSURE(v3 == os_[3], "NGA_Access_block_segment64: scalar result handed back"); ENSURE(ncall_ == 1, "NGA_Access_block_segment64: done by one call"); } }
void pnga_access_ghost_ptr(Integer a0, Integer a1[], void* a2, Integer a3[]) { ncall_++; ENSURE(a0 == es_[0], "access_ghost_ptr: handle handed on"); AOUT(a1, 1) if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "access_ghost_ptr: pointer handed on"); AOUT(a3, 3) }
static void f_NGA_Access_ghosts(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = OUT_int("o1", nd_[0], 1); void *v2 = buf_ + 16; ep_[2] = v2; int *v3 = OUT_int("o3", nd_[0] - 1, 3); NGA_Access_ghosts(v0, v1, v2, v3); OEQ(v1, nd_[0], 1, , "NGA_Access_ghosts: array handed back reversed") OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_ghosts: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_ghosts: done by one call"); } }
static void f_NGA_Access_ghosts64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = OUT_i64("o1", nd_[0], 1); void *v2 = buf_ + 16; ep_[2] = v2; int64_t *v3 = OUT_i64("o3", nd_[0] - 1, 3); NGA_Access_ghosts64(v0, v1, v2, v3); OEQ(v1, nd_[0], 1, , "NGA_Access_ghosts64: array handed back reversed") OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_ghosts64: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_ghosts64: done by one call"); } }
void pnga_access_ghost_element_ptr(Integer a0, void *a1, Integer a2[], Integer a3[]) { ncall_++; ENSURE(a0 == es_[0], "access_ghost_element_ptr: handle handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "access_ghost_element_ptr: pointer handed on"); AEQ(a2, 2, "access_ghost_element_ptr: index reversed and counted from one") AOUT(a3, 3) }
static void f_NGA_Access_ghost_element(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; void *v1 = buf_ + 8; ep_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = OUT_int("o3", nd_[0] - 1, 3); NGA_Access_ghost_element(v0, v1, v2, v3); UNCH(v2, nd_[0], 2, "NGA_Access_ghost_element: the caller's array is unchanged") OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_ghost_element: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_ghost_element: done by one call"); } }
static void f_NGA_Access_ghost_element64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; void *v1 = buf_ + 8; ep_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = OUT_i64("o3", nd_[0] - 1, 3); NGA_Access_ghost_element64(v0, v1, v2, v3); UNCH(v2, nd_[0], 2, "NGA_Access_ghost_element64: the caller's array is unchanged") OEQ(v3, nd_[0] - 1, 3, , "NGA_Access_ghost_element64: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Access_ghost_element64: done by one call"); } }
void pnga_release(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "release: handle handed on"); AEQ(a1, 1, "release: index reversed and counted from one") AEQ(a2, 2, "release: index reversed and counted from one") }
static void f_NGA_Release(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); NGA_Release(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Release: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Release: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release: done by one call"); } }
static void f_NGA_Release64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); NGA_Release64(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Release64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Release64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release64: done by one call"); } }
void pnga_release_update(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "release_update: handle handed on"); AEQ(a1, 1, "release_update: index reversed and counted from one") AEQ(a2, 2, "release_update: index reversed and counted from one") }
static void f_NGA_Release_update(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); NGA_Release_update(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Release_update: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Release_update: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release_update: done by one call"); } }
static void f_NGA_Release_update64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); NGA_Release_update64(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Release_update64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Release_update64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release_update64: done by one call"); } }
void pnga_release_block_grid(Integer a0, Integer *a1) { ncall_++; ENSURE(a0 == es_[0], "release_block_grid: handle handed on"); }
static void f_NGA_Release_block_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = vs_ints("a1", nd_[0], 7, 0, 1000); NGA_Release_block_grid(v0, v1);  ENSURE(ncall_ == 1, "NGA_Release_block_grid: done by one call"); } }
void pnga_release_update_block_grid(Integer a0, Integer *a1) { ncall_++; ENSURE(a0 == es_[0], "release_update_block_grid: handle handed on"); }
static void f_NGA_Release_update_block_grid(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = vs_ints("a1", nd_[0], 7, 0, 1000); NGA_Release_update_block_grid(v0, v1);  ENSURE(ncall_ == 1, "NGA_Release_update_block_grid: done by one call"); } }
void pnga_release_ghost_element(Integer a0, Integer a1[]) { ncall_++; ENSURE(a0 == es_[0], "release_ghost_element: handle handed on"); AEQ(a1, 1, "release_ghost_element: index reversed and counted from one") }
static void f_NGA_Release_ghost_element(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); NGA_Release_ghost_element(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Release_ghost_element: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release_ghost_element: done by one call"); } }
static void f_NGA_Release_ghost_element64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); NGA_Release_ghost_element64(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Release_ghost_element64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release_ghost_element64: done by one call"); } }
void pnga_release_update_ghost_element(Integer a0, Integer a1[]) { ncall_++; ENSURE(a0 == es_[0], "release_update_ghost_element: handle handed on"); AEQ(a1, 1, "release_update_ghost_element: index reversed and counted from one") }
static void f_NGA_Release_update_ghost_element(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); NGA_Release_update_ghost_element(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Release_update_ghost_element: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release_update_ghost_element: done by one call"); } }
static void f_NGA_Release_update_ghost_element64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); NGA_Release_update_ghost_element64(v0, v1); UNCH(v1, nd_[0], 1, "NGA_Release_update_ghost_element64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Release_update_ghost_element64: done by one call"); } }
void pnga_release_block(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "release_block: handle handed on"); ENSURE(a1 == es_[1], "release_block: scalar argument handed on"); }
static void f_NGA_Release_block(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Release_block(v0, v1);  ENSURE(ncall_ == 1, "NGA_Release_block: done by one call"); } }
void pnga_release_block_segment(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "release_block_segment: handle handed on"); ENSURE(a1 == es_[1], "release_block_segment: scalar argument handed on"); }
static void f_NGA_Release_block_segment(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Release_block_segment(v0, v1);  ENSURE(ncall_ == 1, "NGA_Release_block_segment: done by one call"); } }
logical pnga_locate(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "locate: handle handed on"); AEQ(a1, 1, "locate: index reversed and counted from one") *a2 = os_[2]; return (logical)rv_; }
static void f_NGA_Locate(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); os_[2] = OUT1_int("o2"); rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Locate(v0, v1) == (rv_ ? os_[2] : -1), "NGA_Locate: the owner or -1"); UNCH(v1, nd_[0], 1, "NGA_Locate: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Locate: done by one call"); } }
static void f_NGA_Locate64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); os_[2] = OUT1_int("o2"); rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Locate64(v0, v1) == (rv_ ? os_[2] : -1), "NGA_Locate64: the owner or -1"); UNCH(v1, nd_[0], 1, "NGA_Locate64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Locate64: done by one call"); } }
logical pnga_locate_nnodes(Integer a0, Integer *a1, Integer *a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "locate_nnodes: handle handed on"); AEQ(a1, 1, "locate_nnodes: index reversed and counted from one") AEQ(a2, 2, "locate_nnodes: index reversed and counted from one") *a3 = os_[3]; return (logical)rv_; }
static void f_NGA_Locate_nnodes(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); os_[3] = OUT1_int("o3"); rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Locate_nnodes(v0, v1, v2) == os_[3] || !rv_, "NGA_Locate_nnodes: the number of owners"); UNCH(v1, nd_[0], 1, "NGA_Locate_nnodes: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Locate_nnodes: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Locate_nnodes: done by one call"); } }
static void f_NGA_Locate_nnodes64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); os_[3] = OUT1_int("o3"); rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Locate_nnodes64(v0, v1, v2) == os_[3] || !rv_, "NGA_Locate_nnodes64: the number of owners"); UNCH(v1, nd_[0], 1, "NGA_Locate_nnodes64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Locate_nnodes64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Locate_nnodes64: done by one call"); } }
Integer pnga_locate_num_blocks(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "locate_num_blocks: handle handed on"); AEQ(a1, 1, "locate_num_blocks: index reversed and counted from one") AEQ(a2, 2, "locate_num_blocks: index reversed and counted from one") return (Integer)rv_; }
static void f_NGA_Locate_num_blocks(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); rv_ = VAL_int("ret"); ENSURE(NGA_Locate_num_blocks(v0, v1, v2) == (int)rv_, "NGA_Locate_num_blocks: value handed back"); UNCH(v1, nd_[0], 1, "NGA_Locate_num_blocks: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Locate_num_blocks: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Locate_num_blocks: done by one call"); } }
void pnga_inquire(Integer a0, Integer *a1, Integer *a2, Integer *a3) { ncall_++; ENSURE(a0 == es_[0], "inquire: handle handed on"); *a1 = os_[1]; *a2 = os_[2]; AOUT(a3, 3) }
static void f_NGA_Inquire(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = 0; os_[1] = OUT1_int("o1"); int v2 = 0; os_[2] = OUT1_int("o2"); os_[2] = nd_[0]; int *v3 = OUT_int("o3", nd_[0], 3); NGA_Inquire(v0, &v1, &v2, v3); ENSURE(v1 == os_[1], "NGA_Inquire: scalar result handed back"); ENSURE(v2 == os_[2], "NGA_Inquire: scalar result handed back"); OEQ(v3, nd_[0], 3, , "NGA_Inquire: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Inquire: done by one call"); } }
static void f_NGA_Inquire64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = 0; os_[1] = OUT1_int("o1"); int v2 = 0; os_[2] = OUT1_int("o2"); os_[2] = nd_[0]; int64_t *v3 = OUT_i64("o3", nd_[0], 3); NGA_Inquire64(v0, &v1, &v2, v3); ENSURE(v1 == os_[1], "NGA_Inquire64: scalar result handed back"); ENSURE(v2 == os_[2], "NGA_Inquire64: scalar result handed back"); OEQ(v3, nd_[0], 3, , "NGA_Inquire64: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Inquire64: done by one call"); } }
logical pnga_update_ghost_dir(Integer a0, Integer a1, Integer a2, logical a3) { ncall_++; ENSURE(a0 == es_[0], "update_ghost_dir: handle handed on"); ENSURE(a1 == es_[1], "update_ghost_dir: dimension counted from the other end"); ENSURE(a2 == es_[2], "update_ghost_dir: scalar argument handed on"); ENSURE(a3 == es_[3], "update_ghost_dir: scalar argument handed on"); return (logical)rv_; }
static void f_NGA_Update_ghost_dir(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = vs_int("dim", 0, nd_[0] - 1); es_[1] = nd_[0] - v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Update_ghost_dir(v0, v1, v2, v3) == (int)rv_, "NGA_Update_ghost_dir: value handed back");  ENSURE(ncall_ == 1, "NGA_Update_ghost_dir: done by one call"); } }
void pnga_get_proc_index(Integer a0, Integer a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "get_proc_index: handle handed on"); ENSURE(a1 == es_[1], "get_proc_index: scalar argument handed on"); AOUT(a2, 2) }
static void f_GA_Get_proc_index(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int *v2 = OUT_int("o2", nd_[0], 2); GA_Get_proc_index(v0, v1, v2); OEQ(v2, nd_[0], 2, , "GA_Get_proc_index: array handed back reversed") ENSURE(ncall_ == 1, "GA_Get_proc_index: done by one call"); } }
static void f_NGA_Get_proc_index(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int *v2 = OUT_int("o2", nd_[0], 2); NGA_Get_proc_index(v0, v1, v2); OEQ(v2, nd_[0], 2, , "NGA_Get_proc_index: array handed back reversed") ENSURE(ncall_ == 1, "NGA_Get_proc_index: done by one call"); } }
void pnga_copy_patch(char *a0, Integer a1, Integer *a2, Integer *a3, Integer a4, Integer *a5, Integer *a6) { ncall_++; ENSURE(*a0 == es_[0], "copy_patch: character argument handed on"); ENSURE(a1 == es_[1], "copy_patch: handle handed on"); AEQ(a2, 2, "copy_patch: index reversed and counted from one") AEQ(a3, 3, "copy_patch: index reversed and counted from one") ENSURE(a4 == es_[4], "copy_patch: handle handed on"); AEQ(a5, 5, "copy_patch: index reversed and counted from one") AEQ(a6, 6, "copy_patch: index reversed and counted from one") }
static void f_NGA_Copy_patch(void) { OWN START; { char v0 = (char)vs_int("c0", 33, 126); es_[0] = v0; int v1 = G0_ + 0; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int *v6 = IN_int("a6", nd_[1], 6, 1, 1); NGA_Copy_patch(v0, v1, v2, v3, v4, v5, v6); UNCH(v2, nd_[0], 2, "NGA_Copy_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Copy_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "NGA_Copy_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Copy_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Copy_patch: done by one call"); } }
static void f_NGA_Copy_patch64(void) { OWN START; { char v0 = (char)vs_int("c0", 33, 126); es_[0] = v0; int v1 = G0_ + 0; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); NGA_Copy_patch64(v0, v1, v2, v3, v4, v5, v6); UNCH(v2, nd_[0], 2, "NGA_Copy_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Copy_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "NGA_Copy_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Copy_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Copy_patch64: done by one call"); } }
void pnga_dot_patch(Integer a0, char *a1, Integer *a2, Integer *a3, Integer a4, char *a5, Integer *a6, Integer *a7, void *a8) { ncall_++; ENSURE(a0 == es_[0], "dot_patch: handle handed on"); ENSURE(*a1 == es_[1], "dot_patch: character argument handed on"); AEQ(a2, 2, "dot_patch: index reversed and counted from one") AEQ(a3, 3, "dot_patch: index reversed and counted from one") ENSURE(a4 == es_[4], "dot_patch: handle handed on"); ENSURE(*a5 == es_[5], "dot_patch: character argument handed on"); AEQ(a6, 6, "dot_patch: index reversed and counted from one") AEQ(a7, 7, "dot_patch: index reversed and counted from one") VOUT(a8) }
static void f_NGA_Idot_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int *v6 = IN_int("a6", nd_[1], 6, 1, 1); int *v7 = IN_int("a7", nd_[1], 7, 1, 1); vt_ = 0; vi_ = VAL_int("ret"); ENSURE(NGA_Idot_patch(v0, v1, v2, v3, v4, v5, v6, v7) == (int)vi_, "NGA_Idot_patch: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Idot_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Idot_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Idot_patch: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Idot_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Idot_patch: done by one call"); } }
static void f_NGA_Idot_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); int64_t *v7 = IN_i64("a7", nd_[1], 7, 1, 1); vt_ = 0; vi_ = VAL_int("ret"); ENSURE(NGA_Idot_patch64(v0, v1, v2, v3, v4, v5, v6, v7) == (int)vi_, "NGA_Idot_patch64: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Idot_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Idot_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Idot_patch64: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Idot_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Idot_patch64: done by one call"); } }
static void f_NGA_Ldot_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int *v6 = IN_int("a6", nd_[1], 6, 1, 1); int *v7 = IN_int("a7", nd_[1], 7, 1, 1); vt_ = 1; vi_ = VAL_int("ret"); ENSURE(NGA_Ldot_patch(v0, v1, v2, v3, v4, v5, v6, v7) == (long)vi_, "NGA_Ldot_patch: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Ldot_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Ldot_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Ldot_patch: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Ldot_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Ldot_patch: done by one call"); } }
static void f_NGA_Ldot_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); int64_t *v7 = IN_i64("a7", nd_[1], 7, 1, 1); vt_ = 1; vi_ = VAL_int("ret"); ENSURE(NGA_Ldot_patch64(v0, v1, v2, v3, v4, v5, v6, v7) == (long)vi_, "NGA_Ldot_patch64: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Ldot_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Ldot_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Ldot_patch64: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Ldot_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Ldot_patch64: done by one call"); } }
static void f_NGA_Lldot_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int *v6 = IN_int("a6", nd_[1], 6, 1, 1); int *v7 = IN_int("a7", nd_[1], 7, 1, 1); vt_ = 1; vi_ = VAL_int("ret"); ENSURE(NGA_Lldot_patch(v0, v1, v2, v3, v4, v5, v6, v7) == (long long)vi_, "NGA_Lldot_patch: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Lldot_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Lldot_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Lldot_patch: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Lldot_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Lldot_patch: done by one call"); } }
static void f_NGA_Lldot_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); int64_t *v7 = IN_i64("a7", nd_[1], 7, 1, 1); vt_ = 1; vi_ = VAL_int("ret"); ENSURE(NGA_Lldot_patch64(v0, v1, v2, v3, v4, v5, v6, v7) == (long long)vi_, "NGA_Lldot_patch64: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Lldot_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Lldot_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Lldot_patch64: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Lldot_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Lldot_patch64: done by one call"); } }
static void f_NGA_Ddot_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int *v6 = IN_int("a6", nd_[1], 6, 1, 1); int *v7 = IN_int("a7", nd_[1], 7, 1, 1); vt_ = 2; vi_ = VAL_int("ret"); ENSURE(NGA_Ddot_patch(v0, v1, v2, v3, v4, v5, v6, v7) == (double)vi_, "NGA_Ddot_patch: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Ddot_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Ddot_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Ddot_patch: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Ddot_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Ddot_patch: done by one call"); } }
static void f_NGA_Ddot_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); int64_t *v7 = IN_i64("a7", nd_[1], 7, 1, 1); vt_ = 2; vi_ = VAL_int("ret"); ENSURE(NGA_Ddot_patch64(v0, v1, v2, v3, v4, v5, v6, v7) == (double)vi_, "NGA_Ddot_patch64: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Ddot_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Ddot_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Ddot_patch64: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Ddot_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Ddot_patch64: done by one call"); } }
static void f_NGA_Fdot_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int *v6 = IN_int("a6", nd_[1], 6, 1, 1); int *v7 = IN_int("a7", nd_[1], 7, 1, 1); vt_ = 3; vi_ = VAL_int("ret"); ENSURE(NGA_Fdot_patch(v0, v1, v2, v3, v4, v5, v6, v7) == (float)vi_, "NGA_Fdot_patch: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Fdot_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Fdot_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Fdot_patch: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Fdot_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Fdot_patch: done by one call"); } }
static void f_NGA_Fdot_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); int v4 = G0_ + 1; es_[4] = v4; char v5 = (char)vs_int("c5", 33, 126); es_[5] = v5; int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); int64_t *v7 = IN_i64("a7", nd_[1], 7, 1, 1); vt_ = 3; vi_ = VAL_int("ret"); ENSURE(NGA_Fdot_patch64(v0, v1, v2, v3, v4, v5, v6, v7) == (float)vi_, "NGA_Fdot_patch64: the value of the callee"); UNCH(v2, nd_[0], 2, "NGA_Fdot_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Fdot_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Fdot_patch64: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Fdot_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Fdot_patch64: done by one call"); } }
void pnga_fill_patch(Integer a0, Integer *a1, Integer *a2, void* a3) { ncall_++; ENSURE(a0 == es_[0], "fill_patch: handle handed on"); AEQ(a1, 1, "fill_patch: index reversed and counted from one") AEQ(a2, 2, "fill_patch: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "fill_patch: pointer handed on"); }
static void f_NGA_Fill_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; NGA_Fill_patch(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Fill_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Fill_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Fill_patch: done by one call"); } }
static void f_NGA_Fill_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; NGA_Fill_patch64(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Fill_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Fill_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Fill_patch64: done by one call"); } }
void pnga_zero_patch(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "zero_patch: handle handed on"); AEQ(a1, 1, "zero_patch: index reversed and counted from one") AEQ(a2, 2, "zero_patch: index reversed and counted from one") }
static void f_NGA_Zero_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); NGA_Zero_patch(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Zero_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Zero_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Zero_patch: done by one call"); } }
static void f_NGA_Zero_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); NGA_Zero_patch64(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_Zero_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Zero_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Zero_patch64: done by one call"); } }
void pnga_scale_patch(Integer a0, Integer *a1, Integer *a2, void *a3) { ncall_++; ENSURE(a0 == es_[0], "scale_patch: handle handed on"); AEQ(a1, 1, "scale_patch: index reversed and counted from one") AEQ(a2, 2, "scale_patch: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "scale_patch: pointer handed on"); }
static void f_NGA_Scale_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; NGA_Scale_patch(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Scale_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Scale_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Scale_patch: done by one call"); } }
static void f_NGA_Scale_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; NGA_Scale_patch64(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Scale_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Scale_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Scale_patch64: done by one call"); } }
void pnga_add_patch(void *a0, Integer a1, Integer *a2, Integer *a3, void *a4, Integer a5, Integer *a6, Integer *a7, Integer a8, Integer *a9, Integer *a10) { ncall_++; if (ep_[0] != ANY) ENSURE((const void*)a0 == ep_[0], "add_patch: pointer handed on"); ENSURE(a1 == es_[1], "add_patch: handle handed on"); AEQ(a2, 2, "add_patch: index reversed and counted from one") AEQ(a3, 3, "add_patch: index reversed and counted from one") if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "add_patch: pointer handed on"); ENSURE(a5 == es_[5], "add_patch: handle handed on"); AEQ(a6, 6, "add_patch: index reversed and counted from one") AEQ(a7, 7, "add_patch: index reversed and counted from one") ENSURE(a8 == es_[8], "add_patch: handle handed on"); AEQ(a9, 9, "add_patch: index reversed and counted from one") AEQ(a10, 10, "add_patch: index reversed and counted from one") }
static void f_NGA_Add_patch(void) { OWN START; { void *v0 = buf_ + 0; ep_[0] = v0; int v1 = G0_ + 0; es_[1] = v1; int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int *v3 = IN_int("a3", nd_[0], 3, 1, 1); void *v4 = buf_ + 32; ep_[4] = v4; int v5 = G0_ + 1; es_[5] = v5; int *v6 = IN_int("a6", nd_[1], 6, 1, 1); int *v7 = IN_int("a7", nd_[1], 7, 1, 1); int v8 = G0_ + 2; es_[8] = v8; int *v9 = IN_int("a9", nd_[2], 9, 1, 1); int *v10 = IN_int("a10", nd_[2], 10, 1, 1); NGA_Add_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10); UNCH(v2, nd_[0], 2, "NGA_Add_patch: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Add_patch: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Add_patch: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Add_patch: the caller's array is unchanged") UNCH(v9, nd_[2], 9, "NGA_Add_patch: the caller's array is unchanged") UNCH(v10, nd_[2], 10, "NGA_Add_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Add_patch: done by one call"); } }
static void f_NGA_Add_patch64(void) { OWN START; { void *v0 = buf_ + 0; ep_[0] = v0; int v1 = G0_ + 0; es_[1] = v1; int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int64_t *v3 = IN_i64("a3", nd_[0], 3, 1, 1); void *v4 = buf_ + 32; ep_[4] = v4; int v5 = G0_ + 1; es_[5] = v5; int64_t *v6 = IN_i64("a6", nd_[1], 6, 1, 1); int64_t *v7 = IN_i64("a7", nd_[1], 7, 1, 1); int v8 = G0_ + 2; es_[8] = v8; int64_t *v9 = IN_i64("a9", nd_[2], 9, 1, 1); int64_t *v10 = IN_i64("a10", nd_[2], 10, 1, 1); NGA_Add_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10); UNCH(v2, nd_[0], 2, "NGA_Add_patch64: the caller's array is unchanged") UNCH(v3, nd_[0], 3, "NGA_Add_patch64: the caller's array is unchanged") UNCH(v6, nd_[1], 6, "NGA_Add_patch64: the caller's array is unchanged") UNCH(v7, nd_[1], 7, "NGA_Add_patch64: the caller's array is unchanged") UNCH(v9, nd_[2], 9, "NGA_Add_patch64: the caller's array is unchanged") UNCH(v10, nd_[2], 10, "NGA_Add_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Add_patch64: done by one call"); } }
void pnga_print_patch(Integer a0, Integer *a1, Integer *a2, Integer a3) { ncall_++; ENSURE(a0 == es_[0], "print_patch: handle handed on"); AEQ(a1, 1, "print_patch: index reversed and counted from one") AEQ(a2, 2, "print_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "print_patch: scalar argument handed on"); }
static void f_NGA_Print_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; NGA_Print_patch(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Print_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Print_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Print_patch: done by one call"); } }
static void f_NGA_Print_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; NGA_Print_patch64(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "NGA_Print_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Print_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Print_patch64: done by one call"); } }
void pnga_abs_value_patch(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "abs_value_patch: handle handed on"); AEQ(a1, 1, "abs_value_patch: index reversed and counted from one") AEQ(a2, 2, "abs_value_patch: index reversed and counted from one") }
static void f_GA_Abs_value_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); GA_Abs_value_patch(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Abs_value_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Abs_value_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Abs_value_patch: done by one call"); } }
static void f_GA_Abs_value_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); GA_Abs_value_patch64(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Abs_value_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Abs_value_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Abs_value_patch64: done by one call"); } }
void pnga_add_constant_patch(Integer a0, Integer *a1, Integer *a2, void *a3) { ncall_++; ENSURE(a0 == es_[0], "add_constant_patch: handle handed on"); AEQ(a1, 1, "add_constant_patch: index reversed and counted from one") AEQ(a2, 2, "add_constant_patch: index reversed and counted from one") if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "add_constant_patch: pointer handed on"); }
static void f_GA_Add_constant_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; GA_Add_constant_patch(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "GA_Add_constant_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Add_constant_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Add_constant_patch: done by one call"); } }
static void f_GA_Add_constant_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); void *v3 = buf_ + 24; ep_[3] = v3; GA_Add_constant_patch64(v0, v1, v2, v3); UNCH(v1, nd_[0], 1, "GA_Add_constant_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Add_constant_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Add_constant_patch64: done by one call"); } }
void pnga_recip_patch(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "recip_patch: handle handed on"); AEQ(a1, 1, "recip_patch: index reversed and counted from one") AEQ(a2, 2, "recip_patch: index reversed and counted from one") }
static void f_GA_Recip_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); GA_Recip_patch(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Recip_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Recip_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Recip_patch: done by one call"); } }
static void f_GA_Recip_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); GA_Recip_patch64(v0, v1, v2); UNCH(v1, nd_[0], 1, "GA_Recip_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Recip_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Recip_patch64: done by one call"); } }
void pnga_elem_multiply_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, Integer a6, Integer *a7, Integer *a8) { ncall_++; ENSURE(a0 == es_[0], "elem_multiply_patch: handle handed on"); AEQ(a1, 1, "elem_multiply_patch: index reversed and counted from one") AEQ(a2, 2, "elem_multiply_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "elem_multiply_patch: handle handed on"); AEQ(a4, 4, "elem_multiply_patch: index reversed and counted from one") AEQ(a5, 5, "elem_multiply_patch: index reversed and counted from one") ENSURE(a6 == es_[6], "elem_multiply_patch: handle handed on"); AEQ(a7, 7, "elem_multiply_patch: index reversed and counted from one") AEQ(a8, 8, "elem_multiply_patch: index reversed and counted from one") }
static void f_GA_Elem_multiply_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int *v7 = IN_int("a7", nd_[2], 7, 1, 1); int *v8 = IN_int("a8", nd_[2], 8, 1, 1); GA_Elem_multiply_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_multiply_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_multiply_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_multiply_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_multiply_patch: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_multiply_patch: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_multiply_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_multiply_patch: done by one call"); } }
static void f_GA_Elem_multiply_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int64_t *v7 = IN_i64("a7", nd_[2], 7, 1, 1); int64_t *v8 = IN_i64("a8", nd_[2], 8, 1, 1); GA_Elem_multiply_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_multiply_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_multiply_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_multiply_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_multiply_patch64: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_multiply_patch64: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_multiply_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_multiply_patch64: done by one call"); } }
void pnga_elem_divide_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, Integer a6, Integer *a7, Integer *a8) { ncall_++; ENSURE(a0 == es_[0], "elem_divide_patch: handle handed on"); AEQ(a1, 1, "elem_divide_patch: index reversed and counted from one") AEQ(a2, 2, "elem_divide_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "elem_divide_patch: handle handed on"); AEQ(a4, 4, "elem_divide_patch: index reversed and counted from one") AEQ(a5, 5, "elem_divide_patch: index reversed and counted from one") ENSURE(a6 == es_[6], "elem_divide_patch: handle handed on"); AEQ(a7, 7, "elem_divide_patch: index reversed and counted from one") AEQ(a8, 8, "elem_divide_patch: index reversed and counted from one") }
static void f_GA_Elem_divide_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int *v7 = IN_int("a7", nd_[2], 7, 1, 1); int *v8 = IN_int("a8", nd_[2], 8, 1, 1); GA_Elem_divide_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_divide_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_divide_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_divide_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_divide_patch: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_divide_patch: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_divide_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_divide_patch: done by one call"); } }
static void f_GA_Elem_divide_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int64_t *v7 = IN_i64("a7", nd_[2], 7, 1, 1); int64_t *v8 = IN_i64("a8", nd_[2], 8, 1, 1); GA_Elem_divide_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_divide_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_divide_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_divide_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_divide_patch64: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_divide_patch64: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_divide_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_divide_patch64: done by one call"); } }
void pnga_elem_maximum_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, Integer a6, Integer *a7, Integer *a8) { ncall_++; ENSURE(a0 == es_[0], "elem_maximum_patch: handle handed on"); AEQ(a1, 1, "elem_maximum_patch: index reversed and counted from one") AEQ(a2, 2, "elem_maximum_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "elem_maximum_patch: handle handed on"); AEQ(a4, 4, "elem_maximum_patch: index reversed and counted from one") AEQ(a5, 5, "elem_maximum_patch: index reversed and counted from one") ENSURE(a6 == es_[6], "elem_maximum_patch: handle handed on"); AEQ(a7, 7, "elem_maximum_patch: index reversed and counted from one") AEQ(a8, 8, "elem_maximum_patch: index reversed and counted from one") }
static void f_GA_Elem_maximum_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int *v7 = IN_int("a7", nd_[2], 7, 1, 1); int *v8 = IN_int("a8", nd_[2], 8, 1, 1); GA_Elem_maximum_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_maximum_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_maximum_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_maximum_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_maximum_patch: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_maximum_patch: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_maximum_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_maximum_patch: done by one call"); } }
static void f_GA_Elem_maximum_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int64_t *v7 = IN_i64("a7", nd_[2], 7, 1, 1); int64_t *v8 = IN_i64("a8", nd_[2], 8, 1, 1); GA_Elem_maximum_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_maximum_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_maximum_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_maximum_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_maximum_patch64: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_maximum_patch64: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_maximum_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_maximum_patch64: done by one call"); } }
void pnga_elem_minimum_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, Integer a6, Integer *a7, Integer *a8) { ncall_++; ENSURE(a0 == es_[0], "elem_minimum_patch: handle handed on"); AEQ(a1, 1, "elem_minimum_patch: index reversed and counted from one") AEQ(a2, 2, "elem_minimum_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "elem_minimum_patch: handle handed on"); AEQ(a4, 4, "elem_minimum_patch: index reversed and counted from one") AEQ(a5, 5, "elem_minimum_patch: index reversed and counted from one") ENSURE(a6 == es_[6], "elem_minimum_patch: handle handed on"); AEQ(a7, 7, "elem_minimum_patch: index reversed and counted from one") AEQ(a8, 8, "elem_minimum_patch: index reversed and counted from one") }
static void f_GA_Elem_minimum_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int *v7 = IN_int("a7", nd_[2], 7, 1, 1); int *v8 = IN_int("a8", nd_[2], 8, 1, 1); GA_Elem_minimum_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_minimum_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_minimum_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_minimum_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_minimum_patch: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_minimum_patch: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_minimum_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_minimum_patch: done by one call"); } }
static void f_GA_Elem_minimum_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int64_t *v7 = IN_i64("a7", nd_[2], 7, 1, 1); int64_t *v8 = IN_i64("a8", nd_[2], 8, 1, 1); GA_Elem_minimum_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8); UNCH(v1, nd_[0], 1, "GA_Elem_minimum_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Elem_minimum_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Elem_minimum_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Elem_minimum_patch64: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Elem_minimum_patch64: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Elem_minimum_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Elem_minimum_patch64: done by one call"); } }
void pnga_median_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, Integer a6, Integer *a7, Integer *a8, Integer a9, Integer *a10, Integer *a11) { ncall_++; ENSURE(a0 == es_[0], "median_patch: handle handed on"); AEQ(a1, 1, "median_patch: index reversed and counted from one") AEQ(a2, 2, "median_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "median_patch: handle handed on"); AEQ(a4, 4, "median_patch: index reversed and counted from one") AEQ(a5, 5, "median_patch: index reversed and counted from one") ENSURE(a6 == es_[6], "median_patch: handle handed on"); AEQ(a7, 7, "median_patch: index reversed and counted from one") AEQ(a8, 8, "median_patch: index reversed and counted from one") ENSURE(a9 == es_[9], "median_patch: handle handed on"); AEQ(a10, 10, "median_patch: index reversed and counted from one") AEQ(a11, 11, "median_patch: index reversed and counted from one") }
static void f_GA_Median_patch(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int *v7 = IN_int("a7", nd_[2], 7, 1, 1); int *v8 = IN_int("a8", nd_[2], 8, 1, 1); int v9 = G0_ + 3; es_[9] = v9; int *v10 = IN_int("a10", nd_[3], 10, 1, 1); int *v11 = IN_int("a11", nd_[3], 11, 1, 1); GA_Median_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); UNCH(v1, nd_[0], 1, "GA_Median_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Median_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Median_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Median_patch: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Median_patch: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Median_patch: the caller's array is unchanged") UNCH(v10, nd_[3], 10, "GA_Median_patch: the caller's array is unchanged") UNCH(v11, nd_[3], 11, "GA_Median_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Median_patch: done by one call"); } }
static void f_GA_Median_patch64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int64_t *v7 = IN_i64("a7", nd_[2], 7, 1, 1); int64_t *v8 = IN_i64("a8", nd_[2], 8, 1, 1); int v9 = G0_ + 3; es_[9] = v9; int64_t *v10 = IN_i64("a10", nd_[3], 10, 1, 1); int64_t *v11 = IN_i64("a11", nd_[3], 11, 1, 1); GA_Median_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11); UNCH(v1, nd_[0], 1, "GA_Median_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Median_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Median_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Median_patch64: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Median_patch64: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Median_patch64: the caller's array is unchanged") UNCH(v10, nd_[3], 10, "GA_Median_patch64: the caller's array is unchanged") UNCH(v11, nd_[3], 11, "GA_Median_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Median_patch64: done by one call"); } }
void pnga_step_max_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, void *a6) { ncall_++; ENSURE(a0 == es_[0], "step_max_patch: handle handed on"); AEQ(a1, 1, "step_max_patch: index reversed and counted from one") AEQ(a2, 2, "step_max_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "step_max_patch: handle handed on"); AEQ(a4, 4, "step_max_patch: index reversed and counted from one") AEQ(a5, 5, "step_max_patch: index reversed and counted from one") if (ep_[6] != ANY) ENSURE((const void*)a6 == ep_[6], "step_max_patch: pointer handed on"); }
static void f_GA_Step_max_patch(void) { SAME START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); void *v6 = buf_ + 48; ep_[6] = v6; GA_Step_max_patch(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "GA_Step_max_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Step_max_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Step_max_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Step_max_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Step_max_patch: done by one call"); } }
static void f_GA_Step_max_patch64(void) { SAME START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); void *v6 = buf_ + 48; ep_[6] = v6; GA_Step_max_patch64(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "GA_Step_max_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Step_max_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Step_max_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Step_max_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Step_max_patch64: done by one call"); } }
void pnga_step_bound_info_patch(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer *a4, Integer *a5, Integer a6, Integer *a7, Integer *a8, Integer a9, Integer *a10, Integer *a11, void *a12, void* a13, void *a14) { ncall_++; ENSURE(a0 == es_[0], "step_bound_info_patch: handle handed on"); AEQ(a1, 1, "step_bound_info_patch: index reversed and counted from one") AEQ(a2, 2, "step_bound_info_patch: index reversed and counted from one") ENSURE(a3 == es_[3], "step_bound_info_patch: handle handed on"); AEQ(a4, 4, "step_bound_info_patch: index reversed and counted from one") AEQ(a5, 5, "step_bound_info_patch: index reversed and counted from one") ENSURE(a6 == es_[6], "step_bound_info_patch: handle handed on"); AEQ(a7, 7, "step_bound_info_patch: index reversed and counted from one") AEQ(a8, 8, "step_bound_info_patch: index reversed and counted from one") ENSURE(a9 == es_[9], "step_bound_info_patch: handle handed on"); AEQ(a10, 10, "step_bound_info_patch: index reversed and counted from one") AEQ(a11, 11, "step_bound_info_patch: index reversed and counted from one") if (ep_[12] != ANY) ENSURE((const void*)a12 == ep_[12], "step_bound_info_patch: pointer handed on"); if (ep_[13] != ANY) ENSURE((const void*)a13 == ep_[13], "step_bound_info_patch: pointer handed on"); if (ep_[14] != ANY) ENSURE((const void*)a14 == ep_[14], "step_bound_info_patch: pointer handed on"); }
static void f_GA_Step_bound_info_patch(void) { SAME START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int *v4 = IN_int("a4", nd_[1], 4, 1, 1); int *v5 = IN_int("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int *v7 = IN_int("a7", nd_[2], 7, 1, 1); int *v8 = IN_int("a8", nd_[2], 8, 1, 1); int v9 = G0_ + 3; es_[9] = v9; int *v10 = IN_int("a10", nd_[3], 10, 1, 1); int *v11 = IN_int("a11", nd_[3], 11, 1, 1); void *v12 = buf_ + 96; ep_[12] = v12; void *v13 = buf_ + 104; ep_[13] = v13; void *v14 = buf_ + 112; ep_[14] = v14; GA_Step_bound_info_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14); UNCH(v1, nd_[0], 1, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v10, nd_[3], 10, "GA_Step_bound_info_patch: the caller's array is unchanged") UNCH(v11, nd_[3], 11, "GA_Step_bound_info_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Step_bound_info_patch: done by one call"); } }
static void f_GA_Step_bound_info_patch64(void) { SAME START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 1, 1); int64_t *v2 = IN_i64("a2", nd_[0], 2, 1, 1); int v3 = G0_ + 1; es_[3] = v3; int64_t *v4 = IN_i64("a4", nd_[1], 4, 1, 1); int64_t *v5 = IN_i64("a5", nd_[1], 5, 1, 1); int v6 = G0_ + 2; es_[6] = v6; int64_t *v7 = IN_i64("a7", nd_[2], 7, 1, 1); int64_t *v8 = IN_i64("a8", nd_[2], 8, 1, 1); int64_t v9 = G0_ + 3; es_[9] = v9; int64_t *v10 = IN_i64("a10", nd_[3], 10, 1, 1); int64_t *v11 = IN_i64("a11", nd_[3], 11, 1, 1); void *v12 = buf_ + 96; ep_[12] = v12; void *v13 = buf_ + 104; ep_[13] = v13; void *v14 = buf_ + 112; ep_[14] = v14; GA_Step_bound_info_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14); UNCH(v1, nd_[0], 1, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v4, nd_[1], 4, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v5, nd_[1], 5, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v7, nd_[2], 7, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v8, nd_[2], 8, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v10, nd_[3], 10, "GA_Step_bound_info_patch64: the caller's array is unchanged") UNCH(v11, nd_[3], 11, "GA_Step_bound_info_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Step_bound_info_patch64: done by one call"); } }
void pnga_get_field(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer a4, void *a5, Integer *a6) { ncall_++; ENSURE(a0 == es_[0], "get_field: handle handed on"); AEQ(a1, 1, "get_field: index reversed and counted from one") AEQ(a2, 2, "get_field: index reversed and counted from one") ENSURE(a3 == es_[3], "get_field: scalar argument handed on"); ENSURE(a4 == es_[4], "get_field: scalar argument handed on"); if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "get_field: pointer handed on"); AEQ(a6, 6, "get_field: leading dimensions reversed") }
static void f_NGA_Get_field(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; int v4 = VAL_int("s4"); es_[4] = (Integer)v4; void *v5 = buf_ + 40; ep_[5] = v5; int *v6 = IN_int("a6", nd_[0] - 1, 6, 0, 1); NGA_Get_field(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "NGA_Get_field: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Get_field: the caller's array is unchanged") UNCH(v6, nd_[0] - 1, 6, "NGA_Get_field: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Get_field: done by one call"); } }
void pnga_put_field(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer a4, void *a5, Integer *a6) { ncall_++; ENSURE(a0 == es_[0], "put_field: handle handed on"); AEQ(a1, 1, "put_field: index reversed and counted from one") AEQ(a2, 2, "put_field: index reversed and counted from one") ENSURE(a3 == es_[3], "put_field: scalar argument handed on"); ENSURE(a4 == es_[4], "put_field: scalar argument handed on"); if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "put_field: pointer handed on"); AEQ(a6, 6, "put_field: leading dimensions reversed") }
static void f_NGA_Put_field(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; int v4 = VAL_int("s4"); es_[4] = (Integer)v4; void *v5 = buf_ + 40; ep_[5] = v5; int *v6 = IN_int("a6", nd_[0] - 1, 6, 0, 1); NGA_Put_field(v0, v1, v2, v3, v4, v5, v6); UNCH(v1, nd_[0], 1, "NGA_Put_field: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Put_field: the caller's array is unchanged") UNCH(v6, nd_[0] - 1, 6, "NGA_Put_field: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Put_field: done by one call"); } }
void pnga_nbget_field(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer a4, void *a5, Integer *a6, Integer *a7) { ncall_++; ENSURE(a0 == es_[0], "nbget_field: handle handed on"); AEQ(a1, 1, "nbget_field: index reversed and counted from one") AEQ(a2, 2, "nbget_field: index reversed and counted from one") ENSURE(a3 == es_[3], "nbget_field: scalar argument handed on"); ENSURE(a4 == es_[4], "nbget_field: scalar argument handed on"); if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "nbget_field: pointer handed on"); AEQ(a6, 6, "nbget_field: leading dimensions reversed") if (ep_[7] != ANY) ENSURE((const void*)a7 == ep_[7], "nbget_field: pointer handed on"); }
static void f_NGA_Nbget_field(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; int v4 = VAL_int("s4"); es_[4] = (Integer)v4; void *v5 = buf_ + 40; ep_[5] = v5; int *v6 = IN_int("a6", nd_[0] - 1, 6, 0, 1); void *v7 = buf_ + 56; ep_[7] = v7; NGA_Nbget_field(v0, v1, v2, v3, v4, v5, v6, v7); UNCH(v1, nd_[0], 1, "NGA_Nbget_field: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Nbget_field: the caller's array is unchanged") UNCH(v6, nd_[0] - 1, 6, "NGA_Nbget_field: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Nbget_field: done by one call"); } }
void pnga_nbput_field(Integer a0, Integer *a1, Integer *a2, Integer a3, Integer a4, void *a5, Integer *a6, Integer *a7) { ncall_++; ENSURE(a0 == es_[0], "nbput_field: handle handed on"); AEQ(a1, 1, "nbput_field: index reversed and counted from one") AEQ(a2, 2, "nbput_field: index reversed and counted from one") ENSURE(a3 == es_[3], "nbput_field: scalar argument handed on"); ENSURE(a4 == es_[4], "nbput_field: scalar argument handed on"); if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "nbput_field: pointer handed on"); AEQ(a6, 6, "nbput_field: leading dimensions reversed") if (ep_[7] != ANY) ENSURE((const void*)a7 == ep_[7], "nbput_field: pointer handed on"); }
static void f_NGA_Nbput_field(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 1, 1); int *v2 = IN_int("a2", nd_[0], 2, 1, 1); int v3 = VAL_int("s3"); es_[3] = (Integer)v3; int v4 = VAL_int("s4"); es_[4] = (Integer)v4; void *v5 = buf_ + 40; ep_[5] = v5; int *v6 = IN_int("a6", nd_[0] - 1, 6, 0, 1); void *v7 = buf_ + 56; ep_[7] = v7; NGA_Nbput_field(v0, v1, v2, v3, v4, v5, v6, v7); UNCH(v1, nd_[0], 1, "NGA_Nbput_field: the caller's array is unchanged") UNCH(v2, nd_[0], 2, "NGA_Nbput_field: the caller's array is unchanged") UNCH(v6, nd_[0] - 1, 6, "NGA_Nbput_field: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Nbput_field: done by one call"); } }
void pnga_set_restricted(Integer a0, Integer *a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "set_restricted: handle handed on"); AEQ(a1, 1, "set_restricted: array handed on") ENSURE(a2 == es_[2], "set_restricted: scalar argument handed on"); }
static void f_GA_Set_restricted(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; es_[2] = 5; int *v1 = IN_int("a1", 5, 1, 0, 0); int v2 = 5; es_[2] = 5; GA_Set_restricted(v0, v1, v2); UNCH(v1, 5, 1, "GA_Set_restricted: the caller's array is unchanged") ENSURE(ncall_ == 1, "GA_Set_restricted: done by one call"); } }
static void f_NGA_Set_restricted(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; es_[2] = 5; int *v1 = IN_int("a1", 5, 1, 0, 0); int v2 = 5; es_[2] = 5; NGA_Set_restricted(v0, v1, v2); UNCH(v1, 5, 1, "NGA_Set_restricted: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Set_restricted: done by one call"); } }
void pnga_gop(Integer a0, void *a1, Integer a2, char *a3) { ncall_++; ENSURE(a0 == es_[0], "gop: data type"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "gop: pointer handed on"); ENSURE(a2 == es_[2], "gop: scalar argument handed on"); if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "gop: pointer handed on"); }
static void f_GA_Igop(void) { OWN START; { es_[0] = C_INT; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Igop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Igop: done by one call"); } }
static void f_GA_Lgop(void) { OWN START; { es_[0] = C_LONG; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Lgop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Lgop: done by one call"); } }
static void f_GA_Llgop(void) { OWN START; { es_[0] = C_LONGLONG; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Llgop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Llgop: done by one call"); } }
static void f_GA_Fgop(void) { OWN START; { es_[0] = C_FLOAT; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Fgop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Fgop: done by one call"); } }
static void f_GA_Dgop(void) { OWN START; { es_[0] = C_DBL; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Dgop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Dgop: done by one call"); } }
static void f_GA_Cgop(void) { OWN START; { es_[0] = C_SCPL; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Cgop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Cgop: done by one call"); } }
static void f_GA_Zgop(void) { OWN START; { es_[0] = C_DCPL; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Zgop(v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Zgop: done by one call"); } }
static void f_NGA_Igop(void) { OWN START; { es_[0] = C_INT; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Igop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Igop: done by one call"); } }
static void f_NGA_Lgop(void) { OWN START; { es_[0] = C_LONG; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Lgop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Lgop: done by one call"); } }
static void f_NGA_Llgop(void) { OWN START; { es_[0] = C_LONGLONG; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Llgop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Llgop: done by one call"); } }
static void f_NGA_Fgop(void) { OWN START; { es_[0] = C_FLOAT; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Fgop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Fgop: done by one call"); } }
static void f_NGA_Dgop(void) { OWN START; { es_[0] = C_DBL; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Dgop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Dgop: done by one call"); } }
static void f_NGA_Cgop(void) { OWN START; { es_[0] = C_SCPL; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Cgop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Cgop: done by one call"); } }
static void f_NGA_Zgop(void) { OWN START; { es_[0] = C_DCPL; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Zgop(v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Zgop: done by one call"); } }
static void f_GA_Gop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; GA_Gop(v0, v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Gop: done by one call"); } }
static void f_NGA_Gop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Gop(v0, v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Gop: done by one call"); } }
void pnga_pgroup_gop(Integer a0, Integer a1, void *a2, Integer a3, char *a4) { ncall_++; ENSURE(a0 == es_[0], "pgroup_gop: scalar argument handed on"); ENSURE(a1 == es_[1], "pgroup_gop: data type"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "pgroup_gop: pointer handed on"); ENSURE(a3 == es_[3], "pgroup_gop: scalar argument handed on"); if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "pgroup_gop: pointer handed on"); }
static void f_GA_Pgroup_igop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_INT; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_igop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_igop: done by one call"); } }
static void f_GA_Pgroup_lgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_LONG; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_lgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_lgop: done by one call"); } }
static void f_GA_Pgroup_llgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_LONGLONG; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_llgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_llgop: done by one call"); } }
static void f_GA_Pgroup_fgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_FLOAT; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_fgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_fgop: done by one call"); } }
static void f_GA_Pgroup_dgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_DBL; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_dgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_dgop: done by one call"); } }
static void f_GA_Pgroup_cgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_SCPL; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_cgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_cgop: done by one call"); } }
static void f_GA_Pgroup_zgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_DCPL; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_zgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_zgop: done by one call"); } }
static void f_NGA_Pgroup_igop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_INT; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_igop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_igop: done by one call"); } }
static void f_NGA_Pgroup_lgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_LONG; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_lgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_lgop: done by one call"); } }
static void f_NGA_Pgroup_llgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_LONGLONG; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_llgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_llgop: done by one call"); } }
static void f_NGA_Pgroup_fgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_FLOAT; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_fgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_fgop: done by one call"); } }
static void f_NGA_Pgroup_dgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_DBL; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_dgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_dgop: done by one call"); } }
static void f_NGA_Pgroup_cgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_SCPL; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_cgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_cgop: done by one call"); } }
static void f_NGA_Pgroup_zgop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; es_[1] = C_DCPL; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_zgop(v0, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_zgop: done by one call"); } }
static void f_GA_Pgroup_gop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; GA_Pgroup_gop(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Pgroup_gop: done by one call"); } }
static void f_NGA_Pgroup_gop(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; NGA_Pgroup_gop(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "NGA_Pgroup_gop: done by one call"); } }
void pnga_dot(int a0, Integer a1, Integer a2, void *a3) { ncall_++; ENSURE(a0 == es_[0], "dot: data type"); ENSURE(a1 == es_[1], "dot: scalar argument handed on"); ENSURE(a2 == es_[2], "dot: scalar argument handed on"); VOUT(a3) }
static void f_GA_Idot(void) { OWN START; { es_[0] = C_INT; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; vt_ = 0; vi_ = VAL_int("ret"); ENSURE(GA_Idot(v1, v2) == (int)vi_, "GA_Idot: the value of the callee");  ENSURE(ncall_ == 1, "GA_Idot: done by one call"); } }
static void f_GA_Ldot(void) { OWN START; { es_[0] = C_LONG; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; vt_ = 1; vi_ = VAL_int("ret"); ENSURE(GA_Ldot(v1, v2) == (long)vi_, "GA_Ldot: the value of the callee");  ENSURE(ncall_ == 1, "GA_Ldot: done by one call"); } }
static void f_GA_Lldot(void) { OWN START; { es_[0] = C_LONGLONG; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; vt_ = 1; vi_ = VAL_int("ret"); ENSURE(GA_Lldot(v1, v2) == (long long)vi_, "GA_Lldot: the value of the callee");  ENSURE(ncall_ == 1, "GA_Lldot: done by one call"); } }
static void f_GA_Ddot(void) { OWN START; { es_[0] = C_DBL; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; vt_ = 2; vi_ = VAL_int("ret"); ENSURE(GA_Ddot(v1, v2) == (double)vi_, "GA_Ddot: the value of the callee");  ENSURE(ncall_ == 1, "GA_Ddot: done by one call"); } }
static void f_GA_Fdot(void) { OWN START; { es_[0] = C_FLOAT; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; vt_ = 3; vi_ = VAL_int("ret"); ENSURE(GA_Fdot(v1, v2) == (float)vi_, "GA_Fdot: the value of the callee");  ENSURE(ncall_ == 1, "GA_Fdot: done by one call"); } }
logical pnga_duplicate(Integer a0, Integer *a1, char *a2) { ncall_++; ENSURE(a0 == es_[0], "duplicate: scalar argument handed on"); *a1 = os_[1]; if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "duplicate: pointer handed on"); return (logical)rv_; }
static void f_GA_Duplicate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v2 = buf_ + 16; ep_[2] = v2; rv_ = vs_int("ret", 0, 1); os_[1] = OUT1_int("h"); ENSURE(GA_Duplicate(v0, v2) == (rv_ ? os_[1] : 0), "GA_Duplicate: the new handle or zero");  ENSURE(ncall_ == 1, "GA_Duplicate: done by one call"); } }
static void f_NGA_Duplicate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v2 = buf_ + 16; ep_[2] = v2; rv_ = vs_int("ret", 0, 1); os_[1] = OUT1_int("h"); ENSURE(NGA_Duplicate(v0, v2) == (rv_ ? os_[1] : 0), "NGA_Duplicate: the new handle or zero");  ENSURE(ncall_ == 1, "NGA_Duplicate: done by one call"); } }
logical pnga_compare_distr(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "compare_distr: handle handed on"); ENSURE(a1 == es_[1], "compare_distr: handle handed on"); return (logical)rv_; }
static void f_GA_Compare_distr(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Compare_distr(v0, v1) == !rv_, "GA_Compare_distr: zero for the same distribution");  ENSURE(ncall_ == 1, "GA_Compare_distr: done by one call"); } }
static void f_NGA_Compare_distr(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int v1 = G0_ + 1; es_[1] = v1; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Compare_distr(v0, v1) == !rv_, "NGA_Compare_distr: zero for the same distribution");  ENSURE(ncall_ == 1, "NGA_Compare_distr: done by one call"); } }
void pnga_matmul_patch(char *a0, char *a1, void *a2, void *a3, Integer a4, Integer a5[], Integer a6[], Integer a7, Integer a8[], Integer a9[], Integer a10, Integer a11[], Integer a12[]) { ncall_++; ENSURE(*a0 == es_[0], "matmul_patch: character argument handed on"); ENSURE(*a1 == es_[1], "matmul_patch: character argument handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "matmul_patch: pointer handed on"); if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "matmul_patch: pointer handed on"); ENSURE(a4 == es_[4], "matmul_patch: handle handed on"); AEQ(a5, 5, "matmul_patch: index reversed and counted from one") AEQ(a6, 6, "matmul_patch: index reversed and counted from one") ENSURE(a7 == es_[7], "matmul_patch: handle handed on"); AEQ(a8, 8, "matmul_patch: index reversed and counted from one") AEQ(a9, 9, "matmul_patch: index reversed and counted from one") ENSURE(a10 == es_[10], "matmul_patch: handle handed on"); AEQ(a11, 11, "matmul_patch: index reversed and counted from one") AEQ(a12, 12, "matmul_patch: index reversed and counted from one") }
static void f_NGA_Matmul_patch(void) { OWN START; { char v0 = (char)vs_int("c0", 33, 126); es_[1] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[0] = v1; void *v2 = buf_ + 16; ep_[2] = v2; void *v3 = buf_ + 24; ep_[3] = v3; int v4 = G0_ + 0; es_[7] = v4; int *v5 = IN_int("a5", nd_[0], 8, 1, 1); int *v6 = IN_int("a6", nd_[0], 9, 1, 1); int v7 = G0_ + 1; es_[4] = v7; int *v8 = IN_int("a8", nd_[1], 5, 1, 1); int *v9 = IN_int("a9", nd_[1], 6, 1, 1); int v10 = G0_ + 2; es_[10] = v10; int *v11 = IN_int("a11", nd_[2], 11, 1, 1); int *v12 = IN_int("a12", nd_[2], 12, 1, 1); NGA_Matmul_patch(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); UNCH(v5, nd_[0], 8, "NGA_Matmul_patch: the caller's array is unchanged") UNCH(v6, nd_[0], 9, "NGA_Matmul_patch: the caller's array is unchanged") UNCH(v8, nd_[1], 5, "NGA_Matmul_patch: the caller's array is unchanged") UNCH(v9, nd_[1], 6, "NGA_Matmul_patch: the caller's array is unchanged") UNCH(v11, nd_[2], 11, "NGA_Matmul_patch: the caller's array is unchanged") UNCH(v12, nd_[2], 12, "NGA_Matmul_patch: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Matmul_patch: done by one call"); } }
static void f_NGA_Matmul_patch64(void) { OWN START; { char v0 = (char)vs_int("c0", 33, 126); es_[1] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[0] = v1; void *v2 = buf_ + 16; ep_[2] = v2; void *v3 = buf_ + 24; ep_[3] = v3; int v4 = G0_ + 0; es_[7] = v4; int64_t *v5 = IN_i64("a5", nd_[0], 8, 1, 1); int64_t *v6 = IN_i64("a6", nd_[0], 9, 1, 1); int v7 = G0_ + 1; es_[4] = v7; int64_t *v8 = IN_i64("a8", nd_[1], 5, 1, 1); int64_t *v9 = IN_i64("a9", nd_[1], 6, 1, 1); int v10 = G0_ + 2; es_[10] = v10; int64_t *v11 = IN_i64("a11", nd_[2], 11, 1, 1); int64_t *v12 = IN_i64("a12", nd_[2], 12, 1, 1); NGA_Matmul_patch64(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); UNCH(v5, nd_[0], 8, "NGA_Matmul_patch64: the caller's array is unchanged") UNCH(v6, nd_[0], 9, "NGA_Matmul_patch64: the caller's array is unchanged") UNCH(v8, nd_[1], 5, "NGA_Matmul_patch64: the caller's array is unchanged") UNCH(v9, nd_[1], 6, "NGA_Matmul_patch64: the caller's array is unchanged") UNCH(v11, nd_[2], 11, "NGA_Matmul_patch64: the caller's array is unchanged") UNCH(v12, nd_[2], 12, "NGA_Matmul_patch64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Matmul_patch64: done by one call"); } }
void pnga_matmul_patch_alt(char *a0, char *a1, void *a2, void *a3, Integer a4, Integer a5[], Integer a6[], Integer a7, Integer a8[], Integer a9[], Integer a10, Integer a11[], Integer a12[]) { ncall_++; ENSURE(*a0 == es_[0], "matmul_patch_alt: character argument handed on"); ENSURE(*a1 == es_[1], "matmul_patch_alt: character argument handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "matmul_patch_alt: pointer handed on"); if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "matmul_patch_alt: pointer handed on"); ENSURE(a4 == es_[4], "matmul_patch_alt: handle handed on"); AEQ(a5, 5, "matmul_patch_alt: index reversed and counted from one") AEQ(a6, 6, "matmul_patch_alt: index reversed and counted from one") ENSURE(a7 == es_[7], "matmul_patch_alt: handle handed on"); AEQ(a8, 8, "matmul_patch_alt: index reversed and counted from one") AEQ(a9, 9, "matmul_patch_alt: index reversed and counted from one") ENSURE(a10 == es_[10], "matmul_patch_alt: handle handed on"); AEQ(a11, 11, "matmul_patch_alt: index reversed and counted from one") AEQ(a12, 12, "matmul_patch_alt: index reversed and counted from one") }
static void f_NGA_Matmul_patch_alt(void) { OWN START; { char v0 = (char)vs_int("c0", 33, 126); es_[1] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[0] = v1; void *v2 = buf_ + 16; ep_[2] = v2; void *v3 = buf_ + 24; ep_[3] = v3; int v4 = G0_ + 0; es_[7] = v4; int *v5 = IN_int("a5", nd_[0], 8, 1, 1); int *v6 = IN_int("a6", nd_[0], 9, 1, 1); int v7 = G0_ + 1; es_[4] = v7; int *v8 = IN_int("a8", nd_[1], 5, 1, 1); int *v9 = IN_int("a9", nd_[1], 6, 1, 1); int v10 = G0_ + 2; es_[10] = v10; int *v11 = IN_int("a11", nd_[2], 11, 1, 1); int *v12 = IN_int("a12", nd_[2], 12, 1, 1); NGA_Matmul_patch_alt(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); UNCH(v5, nd_[0], 8, "NGA_Matmul_patch_alt: the caller's array is unchanged") UNCH(v6, nd_[0], 9, "NGA_Matmul_patch_alt: the caller's array is unchanged") UNCH(v8, nd_[1], 5, "NGA_Matmul_patch_alt: the caller's array is unchanged") UNCH(v9, nd_[1], 6, "NGA_Matmul_patch_alt: the caller's array is unchanged") UNCH(v11, nd_[2], 11, "NGA_Matmul_patch_alt: the caller's array is unchanged") UNCH(v12, nd_[2], 12, "NGA_Matmul_patch_alt: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Matmul_patch_alt: done by one call"); } }
static void f_NGA_Matmul_patch_alt64(void) { OWN START; { char v0 = (char)vs_int("c0", 33, 126); es_[1] = v0; char v1 = (char)vs_int("c1", 33, 126); es_[0] = v1; void *v2 = buf_ + 16; ep_[2] = v2; void *v3 = buf_ + 24; ep_[3] = v3; int v4 = G0_ + 0; es_[7] = v4; int64_t *v5 = IN_i64("a5", nd_[0], 8, 1, 1); int64_t *v6 = IN_i64("a6", nd_[0], 9, 1, 1); int v7 = G0_ + 1; es_[4] = v7; int64_t *v8 = IN_i64("a8", nd_[1], 5, 1, 1); int64_t *v9 = IN_i64("a9", nd_[1], 6, 1, 1); int v10 = G0_ + 2; es_[10] = v10; int64_t *v11 = IN_i64("a11", nd_[2], 11, 1, 1); int64_t *v12 = IN_i64("a12", nd_[2], 12, 1, 1); NGA_Matmul_patch_alt64(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12); UNCH(v5, nd_[0], 8, "NGA_Matmul_patch_alt64: the caller's array is unchanged") UNCH(v6, nd_[0], 9, "NGA_Matmul_patch_alt64: the caller's array is unchanged") UNCH(v8, nd_[1], 5, "NGA_Matmul_patch_alt64: the caller's array is unchanged") UNCH(v9, nd_[1], 6, "NGA_Matmul_patch_alt64: the caller's array is unchanged") UNCH(v11, nd_[2], 11, "NGA_Matmul_patch_alt64: the caller's array is unchanged") UNCH(v12, nd_[2], 12, "NGA_Matmul_patch_alt64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_Matmul_patch_alt64: done by one call"); } }
void pnga_nbget_ghost_dir(Integer a0, Integer *a1, Integer *a2) { ncall_++; ENSURE(a0 == es_[0], "nbget_ghost_dir: handle handed on"); AEQ(a1, 1, "nbget_ghost_dir: array reversed") if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "nbget_ghost_dir: pointer handed on"); }
static void f_NGA_NbGet_ghost_dir(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int *v1 = IN_int("a1", nd_[0], 1, 0, 1); void *v2 = buf_ + 16; ep_[2] = v2; NGA_NbGet_ghost_dir(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_NbGet_ghost_dir: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbGet_ghost_dir: done by one call"); } }
static void f_NGA_NbGet_ghost_dir64(void) { OWN START; { int v0 = G0_ + 0; es_[0] = v0; int64_t *v1 = IN_i64("a1", nd_[0], 1, 0, 1); void *v2 = buf_ + 16; ep_[2] = v2; NGA_NbGet_ghost_dir64(v0, v1, v2); UNCH(v1, nd_[0], 1, "NGA_NbGet_ghost_dir64: the caller's array is unchanged") ENSURE(ncall_ == 1, "NGA_NbGet_ghost_dir64: done by one call"); } }
void pnga_set_array_name(Integer a0, char *a1) { ncall_++; ENSURE(a0 == es_[0], "set_array_name: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "set_array_name: pointer handed on"); }
static void f_GA_Set_array_name(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Set_array_name(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_array_name: done by one call"); } }
static void f_NGA_Set_array_name(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Set_array_name(v0, v1);  ENSURE(ncall_ == 1, "NGA_Set_array_name: done by one call"); } }
void pnga_get_array_name(Integer a0, char *a1) { ncall_++; ENSURE(a0 == es_[0], "get_array_name: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "get_array_name: pointer handed on"); }
static void f_GA_Get_array_name(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Get_array_name(v0, v1);  ENSURE(ncall_ == 1, "GA_Get_array_name: done by one call"); } }
static void f_NGA_Get_array_name(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Get_array_name(v0, v1);  ENSURE(ncall_ == 1, "NGA_Get_array_name: done by one call"); } }
void pnga_set_pgroup(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "set_pgroup: scalar argument handed on"); ENSURE(a1 == es_[1], "set_pgroup: scalar argument handed on"); }
static void f_GA_Set_pgroup(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Set_pgroup(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_pgroup: done by one call"); } }
static void f_NGA_Set_pgroup(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Set_pgroup(v0, v1);  ENSURE(ncall_ == 1, "NGA_Set_pgroup: done by one call"); } }
void pnga_set_restricted_range(Integer a0, Integer a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "set_restricted_range: scalar argument handed on"); ENSURE(a1 == es_[1], "set_restricted_range: scalar argument handed on"); ENSURE(a2 == es_[2], "set_restricted_range: scalar argument handed on"); }
static void f_GA_Set_restricted_range(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; GA_Set_restricted_range(v0, v1, v2);  ENSURE(ncall_ == 1, "GA_Set_restricted_range: done by one call"); } }
static void f_NGA_Set_restricted_range(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; NGA_Set_restricted_range(v0, v1, v2);  ENSURE(ncall_ == 1, "NGA_Set_restricted_range: done by one call"); } }
void pnga_set_property(Integer a0, char *a1) { ncall_++; ENSURE(a0 == es_[0], "set_property: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "set_property: pointer handed on"); }
static void f_GA_Set_property(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Set_property(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_property: done by one call"); } }
static void f_NGA_Set_property(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Set_property(v0, v1);  ENSURE(ncall_ == 1, "NGA_Set_property: done by one call"); } }
void pnga_unset_property(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "unset_property: scalar argument handed on"); }
static void f_GA_Unset_property(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Unset_property(v0);  ENSURE(ncall_ == 1, "GA_Unset_property: done by one call"); } }
static void f_NGA_Unset_property(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Unset_property(v0);  ENSURE(ncall_ == 1, "NGA_Unset_property: done by one call"); } }
void pnga_set_memory_dev(Integer a0, char *a1) { ncall_++; ENSURE(a0 == es_[0], "set_memory_dev: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "set_memory_dev: pointer handed on"); }
static void f_GA_Set_memory_dev(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Set_memory_dev(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_memory_dev: done by one call"); } }
static void f_NGA_Set_memory_dev(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Set_memory_dev(v0, v1);  ENSURE(ncall_ == 1, "NGA_Set_memory_dev: done by one call"); } }
Integer pnga_total_blocks(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "total_blocks: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Total_blocks(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Total_blocks(v0) == (int)rv_, "GA_Total_blocks: value handed back");  ENSURE(ncall_ == 1, "GA_Total_blocks: done by one call"); } }
static void f_NGA_Total_blocks(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Total_blocks(v0) == (int)rv_, "NGA_Total_blocks: value handed back");  ENSURE(ncall_ == 1, "NGA_Total_blocks: done by one call"); } }
logical pnga_uses_proc_grid(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "uses_proc_grid: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Uses_proc_grid(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Uses_proc_grid(v0) == (int)rv_, "GA_Uses_proc_grid: value handed back");  ENSURE(ncall_ == 1, "GA_Uses_proc_grid: done by one call"); } }
static void f_NGA_Uses_proc_grid(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Uses_proc_grid(v0) == (int)rv_, "NGA_Uses_proc_grid: value handed back");  ENSURE(ncall_ == 1, "NGA_Uses_proc_grid: done by one call"); } }
logical pnga_valid_handle(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "valid_handle: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Valid_handle(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Valid_handle(v0) == (int)rv_, "GA_Valid_handle: value handed back");  ENSURE(ncall_ == 1, "GA_Valid_handle: done by one call"); } }
static void f_NGA_Valid_handle(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Valid_handle(v0) == (int)rv_, "NGA_Valid_handle: value handed back");  ENSURE(ncall_ == 1, "NGA_Valid_handle: done by one call"); } }
static void f_GA_Verify_handle(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Verify_handle(v0) == (int)rv_, "GA_Verify_handle: value handed back");  ENSURE(ncall_ == 1, "GA_Verify_handle: done by one call"); } }
static void f_NGA_Verify_handle(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Verify_handle(v0) == (int)rv_, "NGA_Verify_handle: value handed back");  ENSURE(ncall_ == 1, "NGA_Verify_handle: done by one call"); } }
Integer pnga_get_pgroup(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "get_pgroup: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Get_pgroup(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Get_pgroup(v0) == (int)rv_, "GA_Get_pgroup: value handed back");  ENSURE(ncall_ == 1, "GA_Get_pgroup: done by one call"); } }
static void f_NGA_Get_pgroup(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Get_pgroup(v0) == (int)rv_, "NGA_Get_pgroup: value handed back");  ENSURE(ncall_ == 1, "NGA_Get_pgroup: done by one call"); } }
Integer pnga_get_pgroup_size(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "get_pgroup_size: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Get_pgroup_size(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Get_pgroup_size(v0) == (int)rv_, "GA_Get_pgroup_size: value handed back");  ENSURE(ncall_ == 1, "GA_Get_pgroup_size: done by one call"); } }
static void f_NGA_Get_pgroup_size(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Get_pgroup_size(v0) == (int)rv_, "NGA_Get_pgroup_size: value handed back");  ENSURE(ncall_ == 1, "NGA_Get_pgroup_size: done by one call"); } }
void pnga_set_irreg_flag(Integer a0, logical a1) { ncall_++; ENSURE(a0 == es_[0], "set_irreg_flag: scalar argument handed on"); ENSURE(a1 == es_[1], "set_irreg_flag: scalar argument handed on"); }
static void f_GA_Set_irreg_flag(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Set_irreg_flag(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_irreg_flag: done by one call"); } }
static void f_NGA_Set_irreg_flag(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Set_irreg_flag(v0, v1);  ENSURE(ncall_ == 1, "NGA_Set_irreg_flag: done by one call"); } }
void pnga_set_ghost_corner_flag(Integer a0, logical a1) { ncall_++; ENSURE(a0 == es_[0], "set_ghost_corner_flag: scalar argument handed on"); ENSURE(a1 == es_[1], "set_ghost_corner_flag: scalar argument handed on"); }
static void f_GA_Set_ghost_corner_flag(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Set_ghost_corner_flag(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_ghost_corner_flag: done by one call"); } }
static void f_NGA_Set_ghost_corner_flag(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Set_ghost_corner_flag(v0, v1);  ENSURE(ncall_ == 1, "NGA_Set_ghost_corner_flag: done by one call"); } }
logical pnga_allocate(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "allocate: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Allocate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Allocate(v0) == (int)rv_, "GA_Allocate: value handed back");  ENSURE(ncall_ == 1, "GA_Allocate: done by one call"); } }
static void f_NGA_Allocate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Allocate(v0) == (int)rv_, "NGA_Allocate: value handed back");  ENSURE(ncall_ == 1, "NGA_Allocate: done by one call"); } }
logical pnga_deallocate(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "deallocate: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Deallocate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Deallocate(v0) == (int)rv_, "GA_Deallocate: value handed back");  ENSURE(ncall_ == 1, "GA_Deallocate: done by one call"); } }
static void f_NGA_Deallocate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Deallocate(v0) == (int)rv_, "NGA_Deallocate: value handed back");  ENSURE(ncall_ == 1, "NGA_Deallocate: done by one call"); } }
logical pnga_overlay(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "overlay: scalar argument handed on"); ENSURE(a1 == es_[1], "overlay: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Overlay(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Overlay(v0, v1) == (int)rv_, "GA_Overlay: value handed back");  ENSURE(ncall_ == 1, "GA_Overlay: done by one call"); } }
static void f_NGA_Overlay(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Overlay(v0, v1) == (int)rv_, "NGA_Overlay: value handed back");  ENSURE(ncall_ == 1, "NGA_Overlay: done by one call"); } }
Integer pnga_pgroup_nodeid(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "pgroup_nodeid: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Pgroup_nodeid(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Pgroup_nodeid(v0) == (int)rv_, "GA_Pgroup_nodeid: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_nodeid: done by one call"); } }
static void f_NGA_Pgroup_nodeid(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Pgroup_nodeid(v0) == (int)rv_, "NGA_Pgroup_nodeid: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_nodeid: done by one call"); } }
Integer pnga_pgroup_nnodes(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "pgroup_nnodes: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Pgroup_nnodes(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Pgroup_nnodes(v0) == (int)rv_, "GA_Pgroup_nnodes: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_nnodes: done by one call"); } }
static void f_NGA_Pgroup_nnodes(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Pgroup_nnodes(v0) == (int)rv_, "NGA_Pgroup_nnodes: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_nnodes: done by one call"); } }
Integer pnga_pgroup_duplicate(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "pgroup_duplicate: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Pgroup_duplicate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Pgroup_duplicate(v0) == (int)rv_, "GA_Pgroup_duplicate: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_duplicate: done by one call"); } }
static void f_NGA_Pgroup_duplicate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Pgroup_duplicate(v0) == (int)rv_, "NGA_Pgroup_duplicate: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_duplicate: done by one call"); } }
logical pnga_pgroup_destroy(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "pgroup_destroy: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Pgroup_destroy(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Pgroup_destroy(v0) == (int)rv_, "GA_Pgroup_destroy: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_destroy: done by one call"); } }
static void f_NGA_Pgroup_destroy(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Pgroup_destroy(v0) == (int)rv_, "NGA_Pgroup_destroy: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_destroy: done by one call"); } }
Integer pnga_pgroup_split(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "pgroup_split: scalar argument handed on"); ENSURE(a1 == es_[1], "pgroup_split: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Pgroup_split(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(GA_Pgroup_split(v0, v1) == (int)rv_, "GA_Pgroup_split: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_split: done by one call"); } }
static void f_NGA_Pgroup_split(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(NGA_Pgroup_split(v0, v1) == (int)rv_, "NGA_Pgroup_split: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_split: done by one call"); } }
Integer pnga_pgroup_split_irreg(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "pgroup_split_irreg: scalar argument handed on"); ENSURE(a1 == es_[1], "pgroup_split_irreg: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Pgroup_split_irreg(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(GA_Pgroup_split_irreg(v0, v1) == (int)rv_, "GA_Pgroup_split_irreg: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_split_irreg: done by one call"); } }
static void f_NGA_Pgroup_split_irreg(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(NGA_Pgroup_split_irreg(v0, v1) == (int)rv_, "NGA_Pgroup_split_irreg: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_split_irreg: done by one call"); } }
void pnga_update_ghosts(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "update_ghosts: scalar argument handed on"); }
static void f_GA_Update_ghosts(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Update_ghosts(v0);  ENSURE(ncall_ == 1, "GA_Update_ghosts: done by one call"); } }
static void f_NGA_Update_ghosts(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Update_ghosts(v0);  ENSURE(ncall_ == 1, "NGA_Update_ghosts: done by one call"); } }
void pnga_update_ghosts_nb(Integer a0, Integer *a1) { ncall_++; ENSURE(a0 == es_[0], "update_ghosts_nb: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "update_ghosts_nb: pointer handed on"); }
static void f_NGA_Update_ghosts_nb(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Update_ghosts_nb(v0, v1);  ENSURE(ncall_ == 1, "NGA_Update_ghosts_nb: done by one call"); } }
void pnga_merge_mirrored(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "merge_mirrored: scalar argument handed on"); }
static void f_GA_Merge_mirrored(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Merge_mirrored(v0);  ENSURE(ncall_ == 1, "GA_Merge_mirrored: done by one call"); } }
static void f_NGA_Merge_mirrored(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Merge_mirrored(v0);  ENSURE(ncall_ == 1, "NGA_Merge_mirrored: done by one call"); } }
logical pnga_is_mirrored(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "is_mirrored: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Is_mirrored(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Is_mirrored(v0) == (int)rv_, "GA_Is_mirrored: value handed back");  ENSURE(ncall_ == 1, "GA_Is_mirrored: done by one call"); } }
static void f_NGA_Is_mirrored(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Is_mirrored(v0) == (int)rv_, "NGA_Is_mirrored: value handed back");  ENSURE(ncall_ == 1, "NGA_Is_mirrored: done by one call"); } }
logical pnga_has_ghosts(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "has_ghosts: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Has_ghosts(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Has_ghosts(v0) == (int)rv_, "GA_Has_ghosts: value handed back");  ENSURE(ncall_ == 1, "GA_Has_ghosts: done by one call"); } }
static void f_NGA_Has_ghosts(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Has_ghosts(v0) == (int)rv_, "NGA_Has_ghosts: value handed back");  ENSURE(ncall_ == 1, "NGA_Has_ghosts: done by one call"); } }
void pnga_mask_sync(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "mask_sync: scalar argument handed on"); ENSURE(a1 == es_[1], "mask_sync: scalar argument handed on"); }
static void f_GA_Mask_sync(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Mask_sync(v0, v1);  ENSURE(ncall_ == 1, "GA_Mask_sync: done by one call"); } }
static void f_NGA_Mask_sync(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Mask_sync(v0, v1);  ENSURE(ncall_ == 1, "NGA_Mask_sync: done by one call"); } }
void pnga_zero(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "zero: scalar argument handed on"); }
static void f_GA_Zero(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Zero(v0);  ENSURE(ncall_ == 1, "GA_Zero: done by one call"); } }
static void f_NGA_Zero(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Zero(v0);  ENSURE(ncall_ == 1, "NGA_Zero: done by one call"); } }
void pnga_pgroup_set_default(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "pgroup_set_default: scalar argument handed on"); }
static void f_GA_Pgroup_set_default(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Pgroup_set_default(v0);  ENSURE(ncall_ == 1, "GA_Pgroup_set_default: done by one call"); } }
static void f_NGA_Pgroup_set_default(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Pgroup_set_default(v0);  ENSURE(ncall_ == 1, "NGA_Pgroup_set_default: done by one call"); } }
DoublePrecision pnga_rand(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "rand: scalar argument handed on"); return (DoublePrecision)rv_; }
static void f_GA_Rand(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Rand(v0) == (double)rv_, "GA_Rand: value handed back");  ENSURE(ncall_ == 1, "GA_Rand: done by one call"); } }
static void f_NGA_Rand(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Rand(v0) == (double)rv_, "NGA_Rand: value handed back");  ENSURE(ncall_ == 1, "NGA_Rand: done by one call"); } }
void pnga_randomize(Integer a0, void* a1) { ncall_++; ENSURE(a0 == es_[0], "randomize: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "randomize: pointer handed on"); }
static void f_GA_Randomize(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Randomize(v0, v1);  ENSURE(ncall_ == 1, "GA_Randomize: done by one call"); } }
static void f_NGA_Randomize(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Randomize(v0, v1);  ENSURE(ncall_ == 1, "NGA_Randomize: done by one call"); } }
void pnga_fill(Integer a0, void* a1) { ncall_++; ENSURE(a0 == es_[0], "fill: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "fill: pointer handed on"); }
static void f_GA_Fill(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Fill(v0, v1);  ENSURE(ncall_ == 1, "GA_Fill: done by one call"); } }
static void f_NGA_Fill(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Fill(v0, v1);  ENSURE(ncall_ == 1, "NGA_Fill: done by one call"); } }
void pnga_scale(Integer a0, void* a1) { ncall_++; ENSURE(a0 == es_[0], "scale: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "scale: pointer handed on"); }
static void f_GA_Scale(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Scale(v0, v1);  ENSURE(ncall_ == 1, "GA_Scale: done by one call"); } }
void pnga_add(void *a0, Integer a1, void* a2, Integer a3, Integer a4) { ncall_++; if (ep_[0] != ANY) ENSURE((const void*)a0 == ep_[0], "add: pointer handed on"); ENSURE(a1 == es_[1], "add: scalar argument handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "add: pointer handed on"); ENSURE(a3 == es_[3], "add: scalar argument handed on"); ENSURE(a4 == es_[4], "add: scalar argument handed on"); }
static void f_GA_Add(void) { OWN START; { void *v0 = buf_ + 0; ep_[0] = v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; int v4 = VAL_int("s4"); es_[4] = (Integer)v4; GA_Add(v0, v1, v2, v3, v4);  ENSURE(ncall_ == 1, "GA_Add: done by one call"); } }
void pnga_copy(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "copy: scalar argument handed on"); ENSURE(a1 == es_[1], "copy: scalar argument handed on"); }
static void f_GA_Copy(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Copy(v0, v1);  ENSURE(ncall_ == 1, "GA_Copy: done by one call"); } }
Integer pnga_nbtest(Integer *a0) { ncall_++; if (ep_[0] != ANY) ENSURE((const void*)a0 == ep_[0], "nbtest: pointer handed on"); return (Integer)rv_; }
static void f_NGA_NbTest(void) { OWN START; { void *v0 = buf_ + 0; ep_[0] = v0; rv_ = VAL_int("ret"); ENSURE(NGA_NbTest(v0) == (int)rv_, "NGA_NbTest: value handed back");  ENSURE(ncall_ == 1, "NGA_NbTest: done by one call"); } }
void pnga_nbwait(Integer *a0) { ncall_++; if (ep_[0] != ANY) ENSURE((const void*)a0 == ep_[0], "nbwait: pointer handed on"); }
static void f_NGA_NbWait(void) { OWN START; { void *v0 = buf_ + 0; ep_[0] = v0; NGA_NbWait(v0);  ENSURE(ncall_ == 1, "NGA_NbWait: done by one call"); } }
void pnga_release_ghosts(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "release_ghosts: scalar argument handed on"); }
static void f_NGA_Release_ghosts(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Release_ghosts(v0);  ENSURE(ncall_ == 1, "NGA_Release_ghosts: done by one call"); } }
void pnga_check_handle(Integer a0, char *a1) { ncall_++; ENSURE(a0 == es_[0], "check_handle: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "check_handle: pointer handed on"); }
static void f_GA_Check_handle(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Check_handle(v0, v1);  ENSURE(ncall_ == 1, "GA_Check_handle: done by one call"); } }
logical pnga_create_mutexes(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "create_mutexes: scalar argument handed on"); return (logical)rv_; }
static void f_GA_Create_mutexes(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(GA_Create_mutexes(v0) == (int)rv_, "GA_Create_mutexes: value handed back");  ENSURE(ncall_ == 1, "GA_Create_mutexes: done by one call"); } }
static void f_NGA_Create_mutexes(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Create_mutexes(v0) == (int)rv_, "NGA_Create_mutexes: value handed back");  ENSURE(ncall_ == 1, "NGA_Create_mutexes: done by one call"); } }
void pnga_lock(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "lock: scalar argument handed on"); }
static void f_GA_Lock(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Lock(v0);  ENSURE(ncall_ == 1, "GA_Lock: done by one call"); } }
static void f_NGA_Lock(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Lock(v0);  ENSURE(ncall_ == 1, "NGA_Lock: done by one call"); } }
void pnga_unlock(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "unlock: scalar argument handed on"); }
static void f_GA_Unlock(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Unlock(v0);  ENSURE(ncall_ == 1, "GA_Unlock: done by one call"); } }
static void f_NGA_Unlock(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Unlock(v0);  ENSURE(ncall_ == 1, "NGA_Unlock: done by one call"); } }
void pnga_pgroup_sync(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "pgroup_sync: scalar argument handed on"); }
static void f_GA_Pgroup_sync(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Pgroup_sync(v0);  ENSURE(ncall_ == 1, "GA_Pgroup_sync: done by one call"); } }
static void f_NGA_Pgroup_sync(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Pgroup_sync(v0);  ENSURE(ncall_ == 1, "NGA_Pgroup_sync: done by one call"); } }
void pnga_alloc_gatscat_buf(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "alloc_gatscat_buf: scalar argument handed on"); }
static void f_NGA_Alloc_gatscat_buf(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Alloc_gatscat_buf(v0);  ENSURE(ncall_ == 1, "NGA_Alloc_gatscat_buf: done by one call"); } }
void pnga_print(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "print: scalar argument handed on"); }
static void f_GA_Print(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Print(v0);  ENSURE(ncall_ == 1, "GA_Print: done by one call"); } }
Integer pnga_llt_solve(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "llt_solve: scalar argument handed on"); ENSURE(a1 == es_[1], "llt_solve: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Llt_solve(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(GA_Llt_solve(v0, v1) == (int)rv_, "GA_Llt_solve: value handed back");  ENSURE(ncall_ == 1, "GA_Llt_solve: done by one call"); } }
Integer pnga_solve(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "solve: scalar argument handed on"); ENSURE(a1 == es_[1], "solve: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Solve(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(GA_Solve(v0, v1) == (int)rv_, "GA_Solve: value handed back");  ENSURE(ncall_ == 1, "GA_Solve: done by one call"); } }
Integer pnga_spd_invert(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "spd_invert: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Spd_invert(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Spd_invert(v0) == (int)rv_, "GA_Spd_invert: value handed back");  ENSURE(ncall_ == 1, "GA_Spd_invert: done by one call"); } }
void pnga_summarize(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "summarize: scalar argument handed on"); }
static void f_GA_Summarize(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Summarize(v0);  ENSURE(ncall_ == 1, "GA_Summarize: done by one call"); } }
void pnga_symmetrize(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "symmetrize: scalar argument handed on"); }
static void f_GA_Symmetrize(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Symmetrize(v0);  ENSURE(ncall_ == 1, "GA_Symmetrize: done by one call"); } }
static void f_NGA_Symmetrize(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Symmetrize(v0);  ENSURE(ncall_ == 1, "NGA_Symmetrize: done by one call"); } }
void pnga_transpose(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "transpose: scalar argument handed on"); ENSURE(a1 == es_[1], "transpose: scalar argument handed on"); }
static void f_GA_Transpose(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Transpose(v0, v1);  ENSURE(ncall_ == 1, "GA_Transpose: done by one call"); } }
void pnga_release_update_block(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "release_update_block: scalar argument handed on"); ENSURE(a1 == es_[1], "release_update_block: scalar argument handed on"); }
static void f_NGA_Release_update_block(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Release_update_block(v0, v1);  ENSURE(ncall_ == 1, "NGA_Release_update_block: done by one call"); } }
void pnga_release_update_block_segment(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "release_update_block_segment: scalar argument handed on"); ENSURE(a1 == es_[1], "release_update_block_segment: scalar argument handed on"); }
static void f_NGA_Release_update_block_segment(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Release_update_block_segment(v0, v1);  ENSURE(ncall_ == 1, "NGA_Release_update_block_segment: done by one call"); } }
void pnga_release_update_ghosts(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "release_update_ghosts: scalar argument handed on"); }
static void f_NGA_Release_update_ghosts(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Release_update_ghosts(v0);  ENSURE(ncall_ == 1, "NGA_Release_update_ghosts: done by one call"); } }
void pnga_step_bound_info(Integer a0, Integer a1, Integer a2, Integer a3, void *a4, void *a5, void *a6) { ncall_++; ENSURE(a0 == es_[0], "step_bound_info: scalar argument handed on"); ENSURE(a1 == es_[1], "step_bound_info: scalar argument handed on"); ENSURE(a2 == es_[2], "step_bound_info: scalar argument handed on"); ENSURE(a3 == es_[3], "step_bound_info: scalar argument handed on"); if (ep_[4] != ANY) ENSURE((const void*)a4 == ep_[4], "step_bound_info: pointer handed on"); if (ep_[5] != ANY) ENSURE((const void*)a5 == ep_[5], "step_bound_info: pointer handed on"); if (ep_[6] != ANY) ENSURE((const void*)a6 == ep_[6], "step_bound_info: pointer handed on"); }
static void f_GA_Step_bound_info(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; void *v4 = buf_ + 32; ep_[4] = v4; void *v5 = buf_ + 40; ep_[5] = v5; void *v6 = buf_ + 48; ep_[6] = v6; GA_Step_bound_info(v0, v1, v2, v3, v4, v5, v6);  ENSURE(ncall_ == 1, "GA_Step_bound_info: done by one call"); } }
void pnga_step_max(Integer a0, Integer a1, void *a2) { ncall_++; ENSURE(a0 == es_[0], "step_max: scalar argument handed on"); ENSURE(a1 == es_[1], "step_max: scalar argument handed on"); if (ep_[2] != ANY) ENSURE((const void*)a2 == ep_[2], "step_max: pointer handed on"); }
static void f_GA_Step_max(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; void *v2 = buf_ + 16; ep_[2] = v2; GA_Step_max(v0, v1, v2);  ENSURE(ncall_ == 1, "GA_Step_max: done by one call"); } }
void pnga_abs_value(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "abs_value: scalar argument handed on"); }
static void f_GA_Abs_value(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Abs_value(v0);  ENSURE(ncall_ == 1, "GA_Abs_value: done by one call"); } }
void pnga_add_constant(Integer a0, void *a1) { ncall_++; ENSURE(a0 == es_[0], "add_constant: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "add_constant: pointer handed on"); }
static void f_GA_Add_constant(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Add_constant(v0, v1);  ENSURE(ncall_ == 1, "GA_Add_constant: done by one call"); } }
void pnga_recip(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "recip: scalar argument handed on"); }
static void f_GA_Recip(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Recip(v0);  ENSURE(ncall_ == 1, "GA_Recip: done by one call"); } }
void pnga_elem_multiply(Integer a0, Integer a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "elem_multiply: scalar argument handed on"); ENSURE(a1 == es_[1], "elem_multiply: scalar argument handed on"); ENSURE(a2 == es_[2], "elem_multiply: scalar argument handed on"); }
static void f_GA_Elem_multiply(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; GA_Elem_multiply(v0, v1, v2);  ENSURE(ncall_ == 1, "GA_Elem_multiply: done by one call"); } }
void pnga_elem_divide(Integer a0, Integer a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "elem_divide: scalar argument handed on"); ENSURE(a1 == es_[1], "elem_divide: scalar argument handed on"); ENSURE(a2 == es_[2], "elem_divide: scalar argument handed on"); }
static void f_GA_Elem_divide(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; GA_Elem_divide(v0, v1, v2);  ENSURE(ncall_ == 1, "GA_Elem_divide: done by one call"); } }
void pnga_elem_maximum(Integer a0, Integer a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "elem_maximum: scalar argument handed on"); ENSURE(a1 == es_[1], "elem_maximum: scalar argument handed on"); ENSURE(a2 == es_[2], "elem_maximum: scalar argument handed on"); }
static void f_GA_Elem_maximum(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; GA_Elem_maximum(v0, v1, v2);  ENSURE(ncall_ == 1, "GA_Elem_maximum: done by one call"); } }
void pnga_elem_minimum(Integer a0, Integer a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "elem_minimum: scalar argument handed on"); ENSURE(a1 == es_[1], "elem_minimum: scalar argument handed on"); ENSURE(a2 == es_[2], "elem_minimum: scalar argument handed on"); }
static void f_GA_Elem_minimum(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; GA_Elem_minimum(v0, v1, v2);  ENSURE(ncall_ == 1, "GA_Elem_minimum: done by one call"); } }
void pnga_shift_diagonal(Integer a0, void *a1) { ncall_++; ENSURE(a0 == es_[0], "shift_diagonal: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "shift_diagonal: pointer handed on"); }
static void f_GA_Shift_diagonal(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; GA_Shift_diagonal(v0, v1);  ENSURE(ncall_ == 1, "GA_Shift_diagonal: done by one call"); } }
void pnga_set_diagonal(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "set_diagonal: scalar argument handed on"); ENSURE(a1 == es_[1], "set_diagonal: scalar argument handed on"); }
static void f_GA_Set_diagonal(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Set_diagonal(v0, v1);  ENSURE(ncall_ == 1, "GA_Set_diagonal: done by one call"); } }
void pnga_zero_diagonal(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "zero_diagonal: scalar argument handed on"); }
static void f_GA_Zero_diagonal(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Zero_diagonal(v0);  ENSURE(ncall_ == 1, "GA_Zero_diagonal: done by one call"); } }
void pnga_add_diagonal(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "add_diagonal: scalar argument handed on"); ENSURE(a1 == es_[1], "add_diagonal: scalar argument handed on"); }
static void f_GA_Add_diagonal(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Add_diagonal(v0, v1);  ENSURE(ncall_ == 1, "GA_Add_diagonal: done by one call"); } }
void pnga_get_diag(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "get_diag: scalar argument handed on"); ENSURE(a1 == es_[1], "get_diag: scalar argument handed on"); }
static void f_GA_Get_diag(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Get_diag(v0, v1);  ENSURE(ncall_ == 1, "GA_Get_diag: done by one call"); } }
void pnga_scale_cols(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "scale_cols: scalar argument handed on"); ENSURE(a1 == es_[1], "scale_cols: scalar argument handed on"); }
static void f_GA_Scale_rows(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Scale_rows(v0, v1);  ENSURE(ncall_ == 1, "GA_Scale_rows: done by one call"); } }
void pnga_scale_rows(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "scale_rows: scalar argument handed on"); ENSURE(a1 == es_[1], "scale_rows: scalar argument handed on"); }
static void f_GA_Scale_cols(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; GA_Scale_cols(v0, v1);  ENSURE(ncall_ == 1, "GA_Scale_cols: done by one call"); } }
void pnga_median(Integer a0, Integer a1, Integer a2, Integer a3) { ncall_++; ENSURE(a0 == es_[0], "median: scalar argument handed on"); ENSURE(a1 == es_[1], "median: scalar argument handed on"); ENSURE(a2 == es_[2], "median: scalar argument handed on"); ENSURE(a3 == es_[3], "median: scalar argument handed on"); }
static void f_GA_Median(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; int v3 = VAL_int("s3"); es_[3] = (Integer)v3; GA_Median(v0, v1, v2, v3);  ENSURE(ncall_ == 1, "GA_Median: done by one call"); } }
Integer pnga_cluster_proc_nodeid(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "cluster_proc_nodeid: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Cluster_proc_nodeid(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Cluster_proc_nodeid(v0) == (int)rv_, "GA_Cluster_proc_nodeid: value handed back");  ENSURE(ncall_ == 1, "GA_Cluster_proc_nodeid: done by one call"); } }
Integer pnga_cluster_nprocs(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "cluster_nprocs: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Cluster_nprocs(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(GA_Cluster_nprocs(v0) == (int)rv_, "GA_Cluster_nprocs: value handed back");  ENSURE(ncall_ == 1, "GA_Cluster_nprocs: done by one call"); } }
Integer pnga_cluster_procid(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "cluster_procid: scalar argument handed on"); ENSURE(a1 == es_[1], "cluster_procid: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Cluster_procid(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(GA_Cluster_procid(v0, v1) == (int)rv_, "GA_Cluster_procid: value handed back");  ENSURE(ncall_ == 1, "GA_Cluster_procid: done by one call"); } }
void pnga_set_debug(logical a0) { ncall_++; ENSURE(a0 == es_[0], "set_debug: scalar argument handed on"); }
static void f_GA_Set_debug(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; GA_Set_debug(v0);  ENSURE(ncall_ == 1, "GA_Set_debug: done by one call"); } }
static void f_NGA_Set_debug(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; NGA_Set_debug(v0);  ENSURE(ncall_ == 1, "NGA_Set_debug: done by one call"); } }
Integer pnga_pgroup_absolute_id(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "pgroup_absolute_id: scalar argument handed on"); ENSURE(a1 == es_[1], "pgroup_absolute_id: scalar argument handed on"); return (Integer)rv_; }
static void f_GA_Pgroup_absolute_id(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(GA_Pgroup_absolute_id(v0, v1) == (int)rv_, "GA_Pgroup_absolute_id: value handed back");  ENSURE(ncall_ == 1, "GA_Pgroup_absolute_id: done by one call"); } }
static void f_NGA_Pgroup_absolute_id(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(NGA_Pgroup_absolute_id(v0, v1) == (int)rv_, "NGA_Pgroup_absolute_id: value handed back");  ENSURE(ncall_ == 1, "NGA_Pgroup_absolute_id: done by one call"); } }
void pnga_sprs_array_add_element(Integer a0, Integer a1, Integer a2, void *a3) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_add_element: scalar argument handed on"); ENSURE(a1 == es_[1], "sprs_array_add_element: scalar argument handed on"); ENSURE(a2 == es_[2], "sprs_array_add_element: scalar argument handed on"); if (ep_[3] != ANY) ENSURE((const void*)a3 == ep_[3], "sprs_array_add_element: pointer handed on"); }
static void f_NGA_Sprs_array_add_element(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Sprs_array_add_element(v0, v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Sprs_array_add_element: done by one call"); } }
static void f_NGA_Sprs_array_add_element64(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int64_t v1 = VAL_long("s1"); es_[1] = (Integer)v1; int64_t v2 = VAL_long("s2"); es_[2] = (Integer)v2; void *v3 = buf_ + 24; ep_[3] = v3; NGA_Sprs_array_add_element64(v0, v1, v2, v3);  ENSURE(ncall_ == 1, "NGA_Sprs_array_add_element64: done by one call"); } }
logical pnga_sprs_array_assemble(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_assemble: scalar argument handed on"); return (logical)rv_; }
static void f_NGA_Sprs_array_assemble(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Sprs_array_assemble(v0) == (int)rv_, "NGA_Sprs_array_assemble: value handed back");  ENSURE(ncall_ == 1, "NGA_Sprs_array_assemble: done by one call"); } }
void pnga_sprs_array_matvec_multiply(Integer a0, Integer a1, Integer a2) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_matvec_multiply: scalar argument handed on"); ENSURE(a1 == es_[1], "sprs_array_matvec_multiply: scalar argument handed on"); ENSURE(a2 == es_[2], "sprs_array_matvec_multiply: scalar argument handed on"); }
static void f_NGA_Sprs_array_matvec_multiply(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; int v2 = VAL_int("s2"); es_[2] = (Integer)v2; NGA_Sprs_array_matvec_multiply(v0, v1, v2);  ENSURE(ncall_ == 1, "NGA_Sprs_array_matvec_multiply: done by one call"); } }
logical pnga_sprs_array_destroy(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_destroy: scalar argument handed on"); return (logical)rv_; }
static void f_NGA_Sprs_array_destroy(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = vs_int("ret", 0, 1); ENSURE(NGA_Sprs_array_destroy(v0) == (int)rv_, "NGA_Sprs_array_destroy: value handed back");  ENSURE(ncall_ == 1, "NGA_Sprs_array_destroy: done by one call"); } }
void pnga_sprs_array_export(Integer a0, const char* a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_export: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "sprs_array_export: pointer handed on"); }
static void f_NGA_Sprs_array_export(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Sprs_array_export(v0, v1);  ENSURE(ncall_ == 1, "NGA_Sprs_array_export: done by one call"); } }
void pnga_sprs_array_diag_right_multiply(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_diag_right_multiply: scalar argument handed on"); ENSURE(a1 == es_[1], "sprs_array_diag_right_multiply: scalar argument handed on"); }
static void f_NGA_Sprs_array_diag_right_multiply(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Sprs_array_diag_right_multiply(v0, v1);  ENSURE(ncall_ == 1, "NGA_Sprs_array_diag_right_multiply: done by one call"); } }
void pnga_sprs_array_diag_left_multiply(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_diag_left_multiply: scalar argument handed on"); ENSURE(a1 == es_[1], "sprs_array_diag_left_multiply: scalar argument handed on"); }
static void f_NGA_Sprs_array_diag_left_multiply(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; NGA_Sprs_array_diag_left_multiply(v0, v1);  ENSURE(ncall_ == 1, "NGA_Sprs_array_diag_left_multiply: done by one call"); } }
void pnga_sprs_array_scale(Integer a0, void *a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_scale: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "sprs_array_scale: pointer handed on"); }
static void f_NGA_Sprs_array_scale(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Sprs_array_scale(v0, v1);  ENSURE(ncall_ == 1, "NGA_Sprs_array_scale: done by one call"); } }
void pnga_sprs_array_shift_diag(Integer a0, void *a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_shift_diag: scalar argument handed on"); if (ep_[1] != ANY) ENSURE((const void*)a1 == ep_[1], "sprs_array_shift_diag: pointer handed on"); }
static void f_NGA_Sprs_array_shift_diag(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; void *v1 = buf_ + 8; ep_[1] = v1; NGA_Sprs_array_shift_diag(v0, v1);  ENSURE(ncall_ == 1, "NGA_Sprs_array_shift_diag: done by one call"); } }
Integer pnga_sprs_array_duplicate(Integer a0) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_duplicate: scalar argument handed on"); return (Integer)rv_; }
static void f_NGA_Sprs_array_duplicate(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; rv_ = VAL_int("ret"); ENSURE(NGA_Sprs_array_duplicate(v0) == (int)rv_, "NGA_Sprs_array_duplicate: value handed back");  ENSURE(ncall_ == 1, "NGA_Sprs_array_duplicate: done by one call"); } }
Integer pnga_sprs_array_matmat_multiply(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_matmat_multiply: scalar argument handed on"); ENSURE(a1 == es_[1], "sprs_array_matmat_multiply: scalar argument handed on"); return (Integer)rv_; }
static void f_NGA_Sprs_array_matmat_multiply(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(NGA_Sprs_array_matmat_multiply(v0, v1) == (int)rv_, "NGA_Sprs_array_matmat_multiply: value handed back");  ENSURE(ncall_ == 1, "NGA_Sprs_array_matmat_multiply: done by one call"); } }
Integer pnga_sprs_array_get_column(Integer a0, Integer a1) { ncall_++; ENSURE(a0 == es_[0], "sprs_array_get_column: scalar argument handed on"); ENSURE(a1 == es_[1], "sprs_array_get_column: scalar argument handed on"); return (Integer)rv_; }
static void f_NGA_Sprs_array_get_column(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int v1 = VAL_int("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(NGA_Sprs_array_get_column(v0, v1) == (int)rv_, "NGA_Sprs_array_get_column: value handed back");  ENSURE(ncall_ == 1, "NGA_Sprs_array_get_column: done by one call"); } }
static void f_NGA_Sprs_array_get_column64(void) { OWN START; { int v0 = VAL_int("s0"); es_[0] = (Integer)v0; int64_t v1 = VAL_long("s1"); es_[1] = (Integer)v1; rv_ = VAL_int("ret"); ENSURE(NGA_Sprs_array_get_column64(v0, v1) == (int)rv_, "NGA_Sprs_array_get_column64: value handed back");  ENSURE(ncall_ == 1, "NGA_Sprs_array_get_column64: done by one call"); } }
#define NGRP 16
static void run(int grp) { switch (grp) {
case 0: null_ = 0; f_NGA_Create(); null_ = 1; f_NGA_Create(); null_ = 0; f_GA_Set_block_cyclic(); f_GA_Get_block_info(); f_NGA_NbAcc(); f_NGA_Distribution(); f_NGA_Access_block(); f_NGA_Release_ghost_element(); f_NGA_Copy_patch(); f_NGA_Scale_patch(); f_GA_Elem_maximum_patch(); f_GA_Igop(); f_GA_Pgroup_igop(); f_GA_Idot(); f_NGA_Set_array_name(); f_NGA_Uses_proc_grid(); f_NGA_Deallocate(); f_NGA_Update_ghosts(); f_GA_Randomize(); f_NGA_Unlock(); f_GA_Step_max(); f_GA_Cluster_proc_nodeid(); f_NGA_Sprs_array_shift_diag(); break;
case 1: null_ = 0; f_NGA_Create64(); null_ = 1; f_NGA_Create64(); null_ = 0; f_GA_Set_block_cyclic64(); f_NGA_Get_block_info(); f_NGA_NbAcc64(); f_NGA_Distribution64(); f_NGA_Access_block64(); f_NGA_Release_ghost_element64(); f_NGA_Copy_patch64(); f_NGA_Scale_patch64(); f_GA_Elem_maximum_patch64(); f_GA_Lgop(); f_GA_Pgroup_lgop(); f_GA_Ldot(); f_GA_Get_array_name(); f_GA_Valid_handle(); f_GA_Overlay(); f_NGA_Update_ghosts_nb(); f_NGA_Randomize(); f_GA_Pgroup_sync(); f_GA_Abs_value(); f_GA_Cluster_nprocs(); f_NGA_Sprs_array_duplicate(); break;
case 2: null_ = 0; f_NGA_Create_config(); null_ = 1; f_NGA_Create_config(); null_ = 0; f_NGA_Set_block_cyclic(); f_NGA_Merge_distr_patch(); f_NGA_Strided_acc(); f_NGA_Select_elem(); f_NGA_Access_block_grid(); f_NGA_Release_update_ghost_element(); f_NGA_Idot_patch(); f_NGA_Add_patch(); f_GA_Elem_minimum_patch(); f_GA_Llgop(); f_GA_Pgroup_llgop(); f_GA_Lldot(); f_NGA_Get_array_name(); f_NGA_Valid_handle(); f_NGA_Overlay(); f_GA_Merge_mirrored(); f_GA_Fill(); f_NGA_Pgroup_sync(); f_GA_Add_constant(); f_GA_Cluster_procid(); f_NGA_Sprs_array_matmat_multiply(); break;
case 3: null_ = 0; f_NGA_Create_config64(); null_ = 1; f_NGA_Create_config64(); null_ = 0; f_NGA_Set_block_cyclic64(); f_NGA_Merge_distr_patch64(); f_NGA_Strided_acc64(); f_NGA_Select_elem64(); f_NGA_Access_block_grid64(); f_NGA_Release_update_ghost_element64(); f_NGA_Idot_patch64(); f_NGA_Add_patch64(); f_GA_Elem_minimum_patch64(); f_GA_Fgop(); f_GA_Pgroup_fgop(); f_GA_Ddot(); f_GA_Set_pgroup(); f_GA_Verify_handle(); f_GA_Pgroup_nodeid(); f_NGA_Merge_mirrored(); f_NGA_Fill(); f_NGA_Alloc_gatscat_buf(); f_GA_Recip(); f_GA_Set_debug(); f_NGA_Sprs_array_get_column(); break;
case 4: null_ = 0; f_NGA_Create_ghosts(); null_ = 1; f_NGA_Create_ghosts(); null_ = 0; f_GA_Set_block_cyclic_proc_grid(); f_NGA_Get_ghost_block(); f_NGA_Strided_get(); f_GA_Scan_add(); f_NGA_Access_block_segment(); f_NGA_Release_block(); f_NGA_Ldot_patch(); f_NGA_Print_patch(); f_GA_Median_patch(); f_GA_Dgop(); f_GA_Pgroup_dgop(); f_GA_Fdot(); f_NGA_Set_pgroup(); f_NGA_Verify_handle(); f_NGA_Pgroup_nodeid(); f_GA_Is_mirrored(); f_GA_Scale(); f_GA_Print(); f_GA_Elem_multiply(); f_NGA_Set_debug(); f_NGA_Sprs_array_get_column64(); break;
case 5: null_ = 0; f_NGA_Create_ghosts64(); null_ = 1; f_NGA_Create_ghosts64(); null_ = 0; f_GA_Set_block_cyclic_proc_grid64(); f_NGA_Get_ghost_block64(); f_NGA_Strided_get64(); f_GA_Scan_add64(); f_NGA_Access_block_segment64(); f_NGA_Release_block_segment(); f_NGA_Ldot_patch64(); f_NGA_Print_patch64(); f_GA_Median_patch64(); f_GA_Cgop(); f_GA_Pgroup_cgop(); f_GA_Duplicate(); f_GA_Set_restricted_range(); f_GA_Get_pgroup(); f_GA_Pgroup_nnodes(); f_NGA_Is_mirrored(); f_GA_Add(); f_GA_Llt_solve(); f_GA_Elem_divide(); f_GA_Pgroup_absolute_id(); break;
case 6: null_ = 0; f_NGA_Create_ghosts_config(); null_ = 1; f_NGA_Create_ghosts_config(); null_ = 0; f_NGA_Set_block_cyclic_proc_grid(); f_NGA_Get(); f_NGA_Strided_put(); f_GA_Scan_copy(); f_NGA_Access_ghosts(); f_NGA_Locate(); f_NGA_Lldot_patch(); f_GA_Abs_value_patch(); f_GA_Step_max_patch(); f_GA_Zgop(); f_GA_Pgroup_zgop(); f_NGA_Duplicate(); f_NGA_Set_restricted_range(); f_NGA_Get_pgroup(); f_NGA_Pgroup_nnodes(); f_GA_Has_ghosts(); f_GA_Copy(); f_GA_Solve(); f_GA_Elem_maximum(); f_NGA_Pgroup_absolute_id(); break;
case 7: null_ = 0; f_NGA_Create_ghosts_config64(); null_ = 1; f_NGA_Create_ghosts_config64(); null_ = 0; f_NGA_Set_block_cyclic_proc_grid64(); f_NGA_Get64(); f_NGA_Strided_put64(); f_GA_Scan_copy64(); f_NGA_Access_ghosts64(); f_NGA_Locate64(); f_NGA_Lldot_patch64(); f_GA_Abs_value_patch64(); f_GA_Step_max_patch64(); f_NGA_Igop(); f_NGA_Pgroup_igop(); f_GA_Compare_distr(); f_GA_Set_property(); f_GA_Get_pgroup_size(); f_GA_Pgroup_duplicate(); f_NGA_Has_ghosts(); f_NGA_NbTest(); f_GA_Spd_invert(); f_GA_Elem_minimum(); f_NGA_Sprs_array_add_element(); break;
case 8: f_GA_Set_data(); f_GA_Set_tiled_proc_grid(); f_NGA_Put(); f_NGA_Periodic_get(); f_GA_Patch_enum(); f_NGA_Access_ghost_element(); f_NGA_Locate_nnodes(); f_NGA_Ddot_patch(); f_GA_Add_constant_patch(); f_GA_Step_bound_info_patch(); f_NGA_Lgop(); f_NGA_Pgroup_lgop(); f_NGA_Compare_distr(); f_NGA_Set_property(); f_NGA_Get_pgroup_size(); f_NGA_Pgroup_duplicate(); f_GA_Mask_sync(); f_NGA_NbWait(); f_GA_Summarize(); f_GA_Shift_diagonal(); f_NGA_Sprs_array_add_element64(); break;
case 9: f_GA_Set_data64(); f_GA_Set_tiled_proc_grid64(); f_NGA_Put64(); f_NGA_Periodic_get64(); f_GA_Patch_enum64(); f_NGA_Access_ghost_element64(); f_NGA_Locate_nnodes64(); f_NGA_Ddot_patch64(); f_GA_Add_constant_patch64(); f_GA_Step_bound_info_patch64(); f_NGA_Llgop(); f_NGA_Pgroup_llgop(); f_NGA_Matmul_patch(); f_GA_Unset_property(); f_GA_Set_irreg_flag(); f_GA_Pgroup_destroy(); f_NGA_Mask_sync(); f_NGA_Release_ghosts(); f_GA_Symmetrize(); f_GA_Set_diagonal(); f_NGA_Sprs_array_assemble(); break;
case 10: f_NGA_Set_data(); f_NGA_Set_tiled_proc_grid(); f_NGA_NbGet(); f_NGA_Periodic_put(); f_GA_Pack(); f_NGA_Release(); f_NGA_Locate_num_blocks(); f_NGA_Fdot_patch(); f_GA_Recip_patch(); f_NGA_Get_field(); f_NGA_Fgop(); f_NGA_Pgroup_fgop(); f_NGA_Matmul_patch64(); f_NGA_Unset_property(); f_NGA_Set_irreg_flag(); f_NGA_Pgroup_destroy(); f_GA_Zero(); f_GA_Check_handle(); f_NGA_Symmetrize(); f_GA_Zero_diagonal(); f_NGA_Sprs_array_matvec_multiply(); break;
case 11: f_NGA_Set_data64(); f_NGA_Set_tiled_proc_grid64(); f_NGA_NbGet64(); f_NGA_Periodic_put64(); f_GA_Pack64(); f_NGA_Release64(); f_NGA_Inquire(); f_NGA_Fdot_patch64(); f_GA_Recip_patch64(); f_NGA_Put_field(); f_NGA_Dgop(); f_NGA_Pgroup_dgop(); f_NGA_Matmul_patch_alt(); f_GA_Set_memory_dev(); f_GA_Set_ghost_corner_flag(); f_GA_Pgroup_split(); f_NGA_Zero(); f_GA_Create_mutexes(); f_GA_Transpose(); f_GA_Add_diagonal(); f_NGA_Sprs_array_destroy(); break;
case 12: null_ = 0; f_GA_Set_chunk(); null_ = 1; f_GA_Set_chunk(); null_ = 0; f_GA_Set_ghosts(); f_NGA_NbPut(); f_NGA_Periodic_acc(); f_GA_Unpack(); f_NGA_Release_update(); f_NGA_Inquire64(); f_NGA_Fill_patch(); f_GA_Elem_multiply_patch(); f_NGA_Nbget_field(); f_NGA_Cgop(); f_NGA_Pgroup_cgop(); f_NGA_Matmul_patch_alt64(); f_NGA_Set_memory_dev(); f_NGA_Set_ghost_corner_flag(); f_NGA_Pgroup_split(); f_GA_Pgroup_set_default(); f_NGA_Create_mutexes(); f_NGA_Release_update_block(); f_GA_Get_diag(); f_NGA_Sprs_array_export(); break;
case 13: null_ = 0; f_GA_Set_chunk64(); null_ = 1; f_GA_Set_chunk64(); null_ = 0; f_GA_Set_ghosts64(); f_NGA_NbPut64(); f_NGA_Periodic_acc64(); f_GA_Unpack64(); f_NGA_Release_update64(); f_NGA_Update_ghost_dir(); f_NGA_Fill_patch64(); f_GA_Elem_multiply_patch64(); f_NGA_Nbput_field(); f_NGA_Zgop(); f_NGA_Pgroup_zgop(); f_NGA_NbGet_ghost_dir(); f_GA_Total_blocks(); f_GA_Allocate(); f_GA_Pgroup_split_irreg(); f_NGA_Pgroup_set_default(); f_GA_Lock(); f_NGA_Release_update_block_segment(); f_GA_Scale_rows(); f_NGA_Sprs_array_diag_right_multiply(); break;
case 14: null_ = 0; f_NGA_Set_chunk(); null_ = 1; f_NGA_Set_chunk(); null_ = 0; f_NGA_Set_ghosts(); f_NGA_Acc(); f_NGA_Read_inc(); f_NGA_Access(); f_NGA_Release_block_grid(); f_GA_Get_proc_index(); f_NGA_Zero_patch(); f_GA_Elem_divide_patch(); f_GA_Set_restricted(); f_GA_Gop(); f_GA_Pgroup_gop(); f_NGA_NbGet_ghost_dir64(); f_NGA_Total_blocks(); f_NGA_Allocate(); f_NGA_Pgroup_split_irreg(); f_GA_Rand(); f_NGA_Lock(); f_NGA_Release_update_ghosts(); f_GA_Scale_cols(); f_NGA_Sprs_array_diag_left_multiply(); break;
case 15: null_ = 0; f_NGA_Set_chunk64(); null_ = 1; f_NGA_Set_chunk64(); null_ = 0; f_NGA_Set_ghosts64(); f_NGA_Acc64(); f_NGA_Read_inc64(); f_NGA_Access64(); f_NGA_Release_update_block_grid(); f_NGA_Get_proc_index(); f_NGA_Zero_patch64(); f_GA_Elem_divide_patch64(); f_NGA_Set_restricted(); f_NGA_Gop(); f_NGA_Pgroup_gop(); f_GA_Set_array_name(); f_GA_Uses_proc_grid(); f_GA_Deallocate(); f_GA_Update_ghosts(); f_NGA_Rand(); f_GA_Unlock(); f_GA_Step_bound_info(); f_GA_Median(); f_NGA_Sprs_array_scale(); break;
} }
VS_ENTRY(vs_capi) { int g = (int)vs_case("group", 0, NGRP - 1), d; for (d = 1; d <= 7; d++) { base(d); run(g); } vs_reach("end"); return 0; }
