From 34b78ac5529c5a4d3a7690b1cf9a80ea4285a817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 01/48] fix: list blocks that contain a whole patch in
 locate_region, locate_nnodes and locate_num_blocks

---
 global/src/base.c | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a9be8d..26f7c3a 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4629,11 +4629,9 @@ logical pnga_locate_nnodes( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (!(tlo[j] <= hi[j] && thi[j] >= lo[j])) {
           chk = 0;
         }
       }
@@ -4820,11 +4818,9 @@ logical pnga_locate_region( Integer g_a,
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (!(tlo[j] <= hi[j] && thi[j] >= lo[j])) {
           chk = 0;
         }
       }
@@ -5610,11 +5606,9 @@ Integer pnga_locate_num_blocks(Integer g_a, Integer *lo, Integer *hi)
       /* get limits on block i */
       pnga_distribution(g_a,i,tlo,thi);
       for (j=0; j<ndim && chk==1; j++) {
-        /* check to see if at least one end point of the interval
-         * represented by blo and bhi falls in the interval
-         * represented by lo and hi */
-        if (!((tlo[j] >= lo[j] && tlo[j] <= hi[j]) ||
-              (thi[j] >= lo[j] && thi[j] <= hi[j]))) {
+        /* check to see if the interval represented by tlo and thi
+         * overlaps the interval represented by lo and hi */
+        if (!(tlo[j] <= hi[j] && thi[j] >= lo[j])) {
           chk = 0;
         }
       }
-- 
2.43.0


From a40ee3914cdcabe2b28d04e49fb979ad303382f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 02/48] fix: block index and piece bounds of locate_region for
 process grid distributions

---
 global/src/base.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 26f7c3a..7a881f3 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4859,13 +4859,11 @@ logical pnga_locate_region( Integer g_a,
     while (count[ndim-1]<=max[ndim-1]) {
       /* Calculate block index */
       Integer idx = 0;
-      Integer factor = 1;
       Integer iproc;
       Integer p_handle = GA[ga_handle].p_handle;
       Integer size = pnga_pgroup_nnodes(p_handle);
       for (i=ndim-1; i>=0; i--) {
-        idx = idx*factor+count[i];
-        factor *= GA[ga_handle].num_blocks[i];
+        idx = idx*GA[ga_handle].num_blocks[i]+count[i];
       }
       proclist[cnt] = idx;
       /* store information on this block */
@@ -4873,14 +4871,14 @@ logical pnga_locate_region( Integer g_a,
       for (i=0; i<ndim; i++) {
         map[offset+i] = count[i]*GA[ga_handle].block_dims[i]+1;
         map[offset+ndim+i] = (count[i]+1)*GA[ga_handle].block_dims[i];
-        if (map[offset+ndim+i] > GA[ga_handle].dims[i])
-          map[offset+ndim+i] = GA[ga_handle].dims[i];
+        if (map[offset+i] < lo[i]) map[offset+i] = lo[i];
+        if (map[offset+ndim+i] > hi[i]) map[offset+ndim+i] = hi[i];
       }
       cnt++;
       /* Increment count array */
       i = 0;
       count[0]++;
-      while (count[i] > max[i] && i<ndim) {
+      while (i<ndim && count[i] > max[i]) {
         if (i<ndim-1) count[i] = min[i];
         if (i<ndim-1) {
           count[i+1]++;
-- 
2.43.0


From a3a22dc7fb26428b38a5c0de1f6cc965e7a8f612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:38 +0000
Subject: [PATCH 03/48] fix: locate rejects invalid subscripts for every
 distribution

---
 global/src/base.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 7a881f3..56d1195 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -815,6 +815,9 @@ Integer d, proc, dpos, ndim, ga_handle = GA_OFFSET + g_a, proc_s[MAXDIM];
    } else {
      Integer i;
      Integer index[MAXDIM];
+     for(d=0, *owner=-1; d< ndim; d++)
+       if(subscript[d]< 1 || subscript[d]>GA[ga_handle].dims[d]) return FALSE;
+
      gam_find_block_indices_from_subscript(ga_handle,subscript,index);
      gam_find_block_from_indices(ga_handle,i,index);    
      *owner = i;
-- 
2.43.0


From ea61f6f6a65069f43b0caefabe071d1264a6d3de Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 04/48] fix: one-sided access to block distributions when some
 processes hold no block

The iterators visited block numbers past the end of the array on a process
without blocks (fewer blocks than processes, or than process grid rows), and a
freshly initialised block-cyclic iterator started at the caller's own block
with an undefined offset.
---
 global/src/iterator.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/global/src/iterator.c b/global/src/iterator.c
index 896dd55..ec66f01 100644
--- a/global/src/iterator.c
+++ b/global/src/iterator.c
@@ -222,7 +222,8 @@ void gai_iterator_init(Integer g_a, Integer lo[], Integer hi[],
   } else if (GA[handle].distr_type == BLOCK_CYCLIC) {
     /* GA uses simple block cyclic data distribution */
     hdl->iproc = 0;
-    hdl->iblock = pnga_nodeid();
+    hdl->iblock = 0;
+    hdl->offset = 0;
   } else if (GA[handle].distr_type == SCALAPACK)  {
     /* GA uses ScaLAPACK block cyclic data distribution */
     int j;
@@ -471,6 +472,8 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* processes beyond the last block hold no data */
+        if (hdl->iblock >= blk_tot) return 0;
         /* get the block corresponding to the current value of iblock */
         idx = hdl->iblock;
         ga_ownsM(handle,idx,blo,bhi);
@@ -570,6 +573,23 @@ int gai_iterator_next(_iterator_hdl *hdl, int *proc, Integer *plo[],
       chk = 0;
       /* loop over blocks until a block with data is found */
       while (!chk) {
+        /* skip processes that hold no blocks at all */
+        for (j = 0; j < ndim; j++) {
+          if (hdl->index[j] >= GA[handle].num_blocks[j]) break;
+        }
+        if (j < ndim) {
+          hdl->iproc++;
+          if (hdl->iproc >= nproc) return 0;
+          hdl->offset = 0;
+          if (GA[handle].distr_type == SCALAPACK) {
+            gam_find_proc_indices(handle, hdl->iproc, hdl->proc_index);
+            gam_find_proc_indices(handle, hdl->iproc, hdl->index);
+          } else {
+            gam_find_tile_proc_indices(handle, hdl->iproc, hdl->proc_index);
+            gam_find_tile_proc_indices(handle, hdl->iproc, hdl->index);
+          }
+          continue;
+        }
         /* get bounds for current block */
         if (GA[handle].distr_type == SCALAPACK ||
             GA[handle].distr_type == TILED) {
@@ -887,7 +907,9 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == SCALAPACK ||
       GA[handle].distr_type == TILED) {
     /* Scalapack-type data distribution */
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->index[i]*hdl->blk_size[i]+1;
@@ -905,7 +927,9 @@ int pnga_local_iterator_next(_iterator_hdl *hdl, Integer plo[],
   } else if (GA[handle].distr_type == TILED_IRREG) {
     /* Irregular tiled data distribution */
     Integer offset = 0;
-    if (hdl->index[ndim-1] >= hdl->blk_num[ndim-1]) return 0;
+    for (i=0; i<ndim; i++) {
+      if (hdl->index[i] >= hdl->blk_num[i]) return 0;
+    }
     /* Find coordinates of bounding block */
     for (i=0; i<ndim; i++) {
       plo[i] = hdl->mapc[offset+hdl->index[i]];
-- 
2.43.0


From a1350bafd58a8af0000dfcbe6f6270c33f8a73a4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 20:45:05 +0000
Subject: [PATCH 05/48] fix: local buffer offset of strided transfers with
 three or more dimensions

---
 global/src/onesided.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index e941da7..5ab3df5 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4184,8 +4184,9 @@ void gai_ComputePatchIndexWithSkip(Integer ndim, Integer *lo, Integer *plo,
   delta -= inc;
   delta /=  skip[0];
   *idx_buf = delta;
+  factor = 1;
   for (i=0; i<ndim-1; i++) {
-    factor = ld[i];
+    factor *= ld[i];
     delta = plo[i+1]-lo[i+1];
     inc = delta%skip[i+1];
     delta -= inc;
-- 
2.43.0


From e5d10d02bdcb95f9f168affd1fafae4dbb7a415d Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:05:57 +0000
Subject: [PATCH 06/48] fix: address of blocks in tiled distributions for
 process grids other than two

---
 global/src/onesided.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 5ab3df5..2b57746 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1679,9 +1679,9 @@ void pnga_access_block_grid_ptr(Integer g_a, Integer *index, void* ptr, Integer
       lo = 0;
       hi = -1;
       */
-      block_idx[i] = (index[i]-proc_index[i]+1)/proc_grid[i];
-      ldim = (num_blocks[i]-proc_index[i]+1)/proc_grid[i];
-      if ((num_blocks[i]-proc_index[i]+1)%proc_grid[i] == 0) {
+      block_idx[i] = (index[i]-proc_index[i])/proc_grid[i];
+      ldim = (num_blocks[i]-proc_index[i]+proc_grid[i]-1)/proc_grid[i];
+      if ((num_blocks[i]-1-proc_index[i])%proc_grid[i] == 0) {
         if (dims[i]%block_dims[i] != 0) {
           lld[i] = (ldim-1)*block_dims[i] + dims[i]%block_dims[i];
         } else {
-- 
2.43.0


From 0134c2469e4cf2ede365fd0aa38e08a880cb47c3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:07:17 +0000
Subject: [PATCH 07/48] fix: elementwise product of complex arrays when the
 result overlays an operand

---
 global/src/elem_alg.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/global/src/elem_alg.c b/global/src/elem_alg.c
index 26c9cd9..509d2b9 100644
--- a/global/src/elem_alg.c
+++ b/global/src/elem_alg.c
@@ -1072,11 +1072,14 @@ static void do_multiply(void *pA, void *pB, void *pC, Integer nelems, Integer ty
 #define TYPE_CASE(MT,T,AT)                                                  \
         case MT:                                                            \
             {                                                               \
-                const T* const restrict aptr = (const T* const restrict)pA; \
-                const T* const restrict bptr = (const T* const restrict)pB; \
-                T* const restrict cptr = (T* const restrict)pC;             \
+                /* pC may be the same as pA or pB */                        \
+                const T* const aptr = (const T*)pA;                         \
+                const T* const bptr = (const T*)pB;                         \
+                T* const cptr = (T*)pC;                                     \
                 for (i=0; i<nelems; i++) {                                  \
-                    assign_mul_##AT(cptr[i],aptr[i],bptr[i]);               \
+                    const T aval = aptr[i];                                 \
+                    const T bval = bptr[i];                                 \
+                    assign_mul_##AT(cptr[i],aval,bval);                     \
                 }                                                           \
                 break;                                                      \
             }
-- 
2.43.0


From a6c495abeb70d7a535c1cad02b6bce823c29d34e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:17:04 +0000
Subject: [PATCH 08/48] fix: element count of scatter and gather on processes
 outside a restricted array

---
 global/src/onesided.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 2b57746..7d6f43d 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -3473,7 +3473,13 @@ void gai_gatscat_new(int op, Integer g_a, void* v, void *subscript,
       header[idx] = i;
       list[i] = j;
     }
-    *locbytes = item_size * nelems[me];
+    /* count elements held by this process, which may hold no part of a
+     * restricted array or of an array on a processor group */
+    iproc = me;
+    if (num_rstrctd > 0) iproc = GA[handle].rank_rstrctd[me];
+    else if (p_handle >= 0) iproc = PGRP_LIST[p_handle].map_proc_list[me];
+    *locbytes = 0;
+    if (iproc >= 0 && iproc < nprocs) *locbytes = item_size * nelems[iproc];
 
     /* allocate buffers for individual vector calls */
     buf = (char*)malloc(2*maxlen*sizeof(void*));
-- 
2.43.0


From 6b49888449c5ecbe7750536a7fbaebc4c36833ec Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:18:08 +0000
Subject: [PATCH 09/48] fix: periodic access to patches that start or end more
 than one period away

---
 global/src/global.periodic.c | 118 +++++++----------------------------
 1 file changed, 24 insertions(+), 94 deletions(-)

diff --git a/global/src/global.periodic.c b/global/src/global.periodic.c
index ea52469..5308df9 100644
--- a/global/src/global.periodic.c
+++ b/global/src/global.periodic.c
@@ -45,19 +45,6 @@
 #define RANGE_BOUND 6
 #define IS_REGULAR_PATCH 100
 
-typedef struct {
-    Integer lo;
-    Integer hi;
-    int isvalid;
-} Range_bound;
-
-typedef struct {
-    Range_bound low;
-    Range_bound mid;
-    Range_bound hig;
-} Range;
-
-
 static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, Integer *hi_orig,
                          Integer range[][RANGE_BOUND], Integer range_num[],
                          Integer offset[][RANGE_BOUND/2], Integer op_code)
@@ -73,8 +60,7 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
 */
 {
     Integer lo[MAXDIM], hi[MAXDIM];
-    Integer i, rmndr, id;
-    Range range_raw[MAXDIM];
+    Integer i, id, start, end;
     Integer is_regular_patch, no_shift;
  
     /* check the patch is valid or not */
@@ -83,103 +69,47 @@ static int ngai_peri_get_range_(Integer ndim, Integer *dims, Integer *lo_orig, I
       hi[i] = hi_orig[i];
       if ((hi[i] - lo[i] + 1) < 1 || (hi[i]-lo[i]+1) > 2*dims[i]) return 0;
     }
-    /* move request so that it at least partially overlaps the array
-     * (if necessary)
+    /* move request by a whole number of periods so that it starts inside the
+     * array (if necessary)
      */
     no_shift = 1;
     for(i=0; i<ndim; i++) {
-      if (lo[i] > dims[i]) {
-        rmndr = lo[i]%dims[i];
-        id = (lo[i]-rmndr)/dims[i]; 
+      id = (lo[i]-1)/dims[i];
+      if (lo[i]-1 < id*dims[i]) id--;
+      if (id != 0) {
         lo[i] = lo[i] - id*dims[i];
         hi[i] = hi[i] - id*dims[i];
-        if (id != 0) {
-          no_shift = 0;
-        }
-      }
-      if (hi[i] < 1) {
-        rmndr = -hi[i]%dims[i];
-        id = (hi[i]+rmndr)/dims[i]+1; 
-        lo[i] = lo[i] + id*dims[i];
-        hi[i] = hi[i] + id*dims[i];
-        if (id != 0) {
-          no_shift = 0;
-        }
+        no_shift = 0;
       }
     }
-    /* break the lo and hi into the corresponding ranges
-     *
-     * lo (if < 1)         1                dims[i]      hi (if > dims[i])
-     * |-------------------|------------------|------------------|
-     * Example:
-     *    lo[0] = -3 hi[0] = 5 dims[0] = 10 then
-     *    range_raw[0].low.lo = -3  range_raw[0].low.hi = 0
-     *    range_raw[0].low.isvalid = 1
-     *    range_raw[0].mid.lo = 1   range_raw[0].mid.hi = 5
-     *    range_raw[0].mid.isvalid = 1
-     *    range_raw[0].hig.isvalid = 0
-     */
-    for(i=0; i<ndim; i++) {
-        /* initialize the dim range */
-        range_raw[i].low.lo = 0; range_raw[i].low.hi = 0;
-        range_raw[i].low.isvalid = 0;
-        range_raw[i].mid.lo = 1; range_raw[i].mid.hi = dims[i];
-        range_raw[i].mid.isvalid = 0;
-        range_raw[i].hig.lo = dims[i]+1; range_raw[i].hig.hi = 0;
-        range_raw[i].hig.isvalid = 0;
-        
-        if(lo[i] < 1) {
-            range_raw[i].low.lo = lo[i];
-            range_raw[i].low.isvalid = 1;
-        } else if (lo[i] >= 1) {
-            range_raw[i].mid.lo = lo[i];
-            range_raw[i].mid.isvalid = 1;
-        }
-
-        if (lo[i] < 1 && hi[i] > dims[i]) {
-            range_raw[i].mid.isvalid = 1;
-        }
-
-
-        if(hi[i] > dims[i]) {
-            range_raw[i].hig.hi = hi[i];
-            range_raw[i].hig.isvalid = 1;
-        } else if (hi[i] <= dims[i]) {
-            range_raw[i].mid.hi = hi[i];
-            range_raw[i].mid.isvalid = 1;
-        }
-
-    }
 
     /* check if this is a regular patch, not periodic operation needed */
     is_regular_patch = 1;
     for(i=0; i<ndim; i++) 
-        if(range_raw[i].low.isvalid || range_raw[i].hig.isvalid)
-            is_regular_patch = 0;
+        if(hi[i] > dims[i]) is_regular_patch = 0;
 
     if(is_regular_patch && no_shift) return IS_REGULAR_PATCH;
     
-    /* adjust the range so that they are in the range of 1 to dims[i] */
+    /* break the lo and hi into ranges that do not cross the end of the array
+     * and move each of them to the range of 1 to dims[i]. A request is not
+     * longer than two periods, so there are at most RANGE_NUM ranges.
+     *
+     * 1      lo           dims[i]               2*dims[i]    hi
+     * |------|---------------|----------------------|---------|
+     */
     for(i=0; i<ndim; i++) {
         range_num[i] = 0;
-        if(range_raw[i].low.isvalid) {
-            range[i][range_num[i]*2] = range_raw[i].low.lo + dims[i];
-            range[i][range_num[i]*2+1] = range_raw[i].low.hi + dims[i];
-            offset[i][range_num[i]] = range_raw[i].low.lo - lo[i];
+        for(id=0; id<RANGE_NUM; id++) {
+            start = id*dims[i]+1;
+            if(start < lo[i]) start = lo[i];
+            end = (id+1)*dims[i];
+            if(end > hi[i]) end = hi[i];
+            if(start > end) continue;
+            range[i][range_num[i]*2] = start - id*dims[i];
+            range[i][range_num[i]*2+1] = end - id*dims[i];
+            offset[i][range_num[i]] = start - lo[i];
             range_num[i]++;
         }
-        if(range_raw[i].mid.isvalid) {
-            range[i][range_num[i]*2] = range_raw[i].mid.lo;
-            range[i][range_num[i]*2+1] = range_raw[i].mid.hi;
-            offset[i][range_num[i]] = range_raw[i].mid.lo - lo[i];
-            range_num[i]++;
-        }
-        if(range_raw[i].hig.isvalid) {
-            range[i][range_num[i]*2] = range_raw[i].hig.lo - dims[i];
-            range[i][range_num[i]*2+1] = range_raw[i].hig.hi - dims[i];
-            offset[i][range_num[i]] = range_raw[i].hig.lo - lo[i];
-            range_num[i]++;
-        }  
     }
     
     return 1;
-- 
2.43.0


From b455d90839dc7dbf9f5b9351ddcfa18609d98035 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:23:53 +0000
Subject: [PATCH 10/48] fix: update of ghost cells in one direction when some
 ghost widths are zero

---
 global/src/ghosts.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 4a6f2a5..5979064 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -3019,6 +3019,11 @@ logical pnga_update_ghost_dir(Integer g_a,    /* GA handle */
         inx++;
       }
     }
+    /* Skip blocks of ghost cells that have zero width */
+    for (idx = 0; idx < ndim; idx++) {
+      if (mask[idx] != 0 && width[idx] == 0) break;
+    }
+    if (idx < ndim) continue;
     /* Now that mask has been determined, find processor that contains
      * data needed by the corresponding block of ghost cells */
     for (idx = 0; idx < ndim; idx++) {
-- 
2.43.0


From d5f35d1c1298d70d7d1e0a335e4a27607be87060 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 21:24:28 +0000
Subject: [PATCH 11/48] fix: positive direction of the shift ghost cell updates
 for ghost widths other than two

---
 global/src/ghosts.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/global/src/ghosts.c b/global/src/ghosts.c
index 5979064..76d496c 100644
--- a/global/src/ghosts.c
+++ b/global/src/ghosts.c
@@ -1241,7 +1241,7 @@ logical pnga_update3_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
@@ -2680,7 +2680,7 @@ logical pnga_update55_ghosts(Integer g_a)
           if (i == idx) {
             plo_rem[i] = 0;
             phi_rem[i] = width[i] - 1;
-            plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+            plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
             /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
           } else {
             plo_rem[i] = width[i];
@@ -3489,7 +3489,7 @@ logical pnga_set_update5_info(Integer g_a)
             if (i == idx) {
               plo_rem[i] = 0;
               phi_rem[i] = width[i] - 1;
-              plo_loc[i] = hi_loc[i] - lo_loc[i] + width[i] - 1;
+              plo_loc[i] = hi_loc[i] - lo_loc[i] + 1;
               /*phi_loc[i] = hi_loc[i] - lo_loc[i] + 2*width[i] - 1;*/
             } else {
               plo_rem[i] = width[i];
-- 
2.43.0


From c9a55d0c0e4c95c720ac469c359072f7f50761ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 12/48] fix: two dimensional gather and scatter read the owner
 list at the process number

---
 global/src/onesided.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 7d6f43d..638c13f 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -2550,8 +2550,17 @@ void pnga_scatter2d(Integer g_a, void *v, Integer *i, Integer *j, Integer nv)
     /* determine limit for message size --  v,i, & j will travel together */
     item_size = GAsizeofM(type);
     GAbytes.scatot += (double)item_size*nv ;
-    iproc = owner[GAme];
-    GAbytes.scaloc += (double)item_size* nelem[iproc];
+    if (GA[handle].distr_type == REGULAR) {
+      for(kk=0; kk<naproc; kk++) {
+        iproc = aproc[kk];
+        if (p_handle >= 0) {
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
+        } else if (GA[handle].num_rstrctd > 0) {
+          iproc = GA[handle].rstrctd_list[iproc];
+        }
+        if (iproc == GAme) GAbytes.scaloc += (double)item_size * nelem[aproc[kk]];
+      }
+    }
     ptr_src[0] = ptr_org; ptr_dst[0] = ptr_org + nv;
     for(k=1; k<naproc; k++) {
         ptr_src[k] = ptr_src[k-1] + nelem[aproc[k-1]];
@@ -3836,10 +3845,17 @@ void pnga_gather2d(Integer g_a, void *v, Integer *i, Integer *j,
     
     item_size = GA[GA_OFFSET + g_a].elemsize;
     GAbytes.gattot += (double)item_size*nv;
-    /*This stuff is probably completely wrong. Doesn't affect performance,
-     * just statistics. */
-    iproc = owner[GAme];
-    GAbytes.gatloc += (double)item_size * nelem[iproc];
+    if (GA[handle].distr_type == REGULAR) {
+      for(kk=0; kk<naproc; kk++) {
+        iproc = aproc[kk];
+        if (p_handle >= 0) {
+          iproc = PGRP_LIST[p_handle].inv_map_proc_list[iproc];
+        } else if (GA[handle].num_rstrctd > 0) {
+          iproc = GA[handle].rstrctd_list[iproc];
+        }
+        if (iproc == GAme) GAbytes.gatloc += (double)item_size * nelem[aproc[kk]];
+      }
+    }
 
     ptr_src[0] = ptr_org; ptr_dst[0] = ptr_org + nv;
     for(k=1; k<naproc; k++) {
-- 
2.43.0


From fa4bd3c5395fa12dffda02d13bb1c69dc757a591 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 13/48] fix: norms of block distributed arrays only looked at
 the last block of each process

---
 global/src/matrix.c | 20 --------------------
 1 file changed, 20 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 377dca2..814fe30 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -800,7 +800,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       float ftemp;
       case C_INT:
       pi = (int *) ptr;
-      *isum = GA_ABS(pi[0]);
       for (j = 0; j < jhiA - jloA + 1; j++) {
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pi[j*ld + i]) > *isum) *isum = GA_ABS(pi[j*ld+i]);
@@ -808,17 +807,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_LONG:
       pl = (long *) ptr;
-      *lsum = GA_ABS(pl[0]);
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pl[j*ld + i]) > *lsum) *lsum = GA_ABS(pl[j*ld+i]);
       break;
       case C_DCPL:
       pz = (DoubleComplex *) ptr;
-      zval = pz[0];
-      dtemp =
-        sqrt (zval.real * zval.real + zval.imag * zval.imag);
-      (*zsum).real = dtemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -830,10 +824,6 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_SCPL:
       pc = (SingleComplex *) ptr;
-      cval =  pc[0];
-      ftemp =
-        sqrt (cval.real * cval.real + cval.imag * cval.imag);
-      (*csum).real = ftemp;
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
         {
@@ -845,14 +835,12 @@ static void sgai_norm_infinity_block(Integer g_a, void *ptr,
       break;
       case C_FLOAT:
       pf = (float *) ptr;
-      *fsum = pf[0];
       for (j = 0; j < jhiA - jloA + 1; j++)
         for (i = 0; i < ihiA - iloA + 1; i++)
           if (GA_ABS(pf[j*ld+i]) > *fsum) *fsum = GA_ABS(pf[j*ld+i]);
       break;
       case C_DBL:
       pd = (double *) ptr;
-      *dsum = pd[0];
       for (i = 0; i < ihiA - iloA + 1; i++)
         for (j = 0; j < jhiA - jloA + 1; j++)
           if (GA_ABS(pd[j*ld+i]) > *dsum) *dsum = GA_ABS(pd[j*ld+i]);
@@ -1117,22 +1105,18 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
       SingleComplex *pc;
       case C_INT:
         pi = (int *) ptr;
-        *isum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *isum += GA_ABS (pi[j * ld + i]);
         break;
       case C_LONG:
         pl = (long *) ptr;
-        *lsum = 0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *lsum += GA_ABS (pl[j * ld + i]);
         break;
       case C_DCPL:
         pz = (DoubleComplex *) ptr;
-        (*zsum).real = 0.0;
-        (*zsum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1144,8 +1128,6 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_SCPL:
         pc = (SingleComplex *) ptr;
-        (*csum).real = 0.0;
-        (*csum).imag = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
           {
@@ -1157,14 +1139,12 @@ static void sgai_norm1_block(Integer g_a, void *ptr,
         break;
       case C_FLOAT:
         pf = (float *) ptr;
-        *fsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *fsum += GA_ABS (pf[j * ld + i]);
         break;
       case C_DBL:
         pd = (double *) ptr;
-        *dsum = 0.0;
         for (i = 0; i < ihiA - iloA + 1; i++)
           for (j = 0; j < jhiA - jloA + 1; j++)
             *dsum += GA_ABS (pd[j * ld + i]);
-- 
2.43.0


From 7844223a35cf8ded33b3c2fd114bb4f55c39a6c1 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:23:20 +0000
Subject: [PATCH 14/48] fix: select_elem with processes that hold no data, and
 with several blocks per process

---
 comex/src-armci/message.c | 30 ++++++++++++++++++++++--------
 global/src/select.c       |  1 +
 2 files changed, 23 insertions(+), 8 deletions(-)

diff --git a/comex/src-armci/message.c b/comex/src-armci/message.c
index f1ffcb8..b84372c 100644
--- a/comex/src-armci/message.c
+++ b/comex/src-armci/message.c
@@ -5,6 +5,8 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <limits.h>
+#include <math.h>
 #include <assert.h>
 
 #include <mpi.h>
@@ -257,6 +259,8 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
     static int initialized = 0;
     MPI_Op mpi_op = MPI_OP_NULL;
     MPI_Comm comm = get_default_comm();
+    int is_min = 0;
+    int size = 0;
 
     if (SCOPE_NODE == scope) {
       if (_number_of_procs_per_node == 1) {
@@ -289,6 +293,7 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
 
     if (strncmp(op, "min", 3) == 0) {
         mpi_op = MPI_MINLOC;
+        is_min = 1;
     }
     else if (strncmp(op, "max", 3) == 0) {
         mpi_op = MPI_MAXLOC;
@@ -297,26 +302,35 @@ void armci_msg_sel_scope(int scope, void *x, int n, char* op, int type, int cont
         comex_error("unsupported armci_msg_sel_scope operation", 1);
     }
 
-#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE)                    \
+    /* a process that does not contribute offers the neutral element, and a
+     * rank behind those of all the contributing processes */
+    MPI_Comm_size(get_default_comm(), &size);
+
+#define SELECT(ARMCI_TYPE, C_TYPE, MPI_TYPE, MINVAL, MAXVAL)    \
     if (type == ARMCI_TYPE) {                                   \
         struct {                                                \
             C_TYPE val;                                         \
             int rank;                                           \
         } in, out;                                              \
-        in.val = *((C_TYPE*)x);                                 \
         in.rank = get_default_rank();                           \
+        if (contribute) {                                       \
+            in.val = *((C_TYPE*)x);                             \
+        } else {                                                \
+            in.val = is_min ? (MAXVAL) : (MINVAL);              \
+            in.rank += size;                                    \
+        }                                                       \
         if (SCOPE_NODE != scope) {                              \
             comex_barrier(ARMCI_Default_Proc_Group);            \
         }                                                       \
         MPI_Allreduce(&in, &out, 1, MPI_TYPE, mpi_op, comm);    \
-        armci_msg_bcast(x, n, out.rank);                        \
+        armci_msg_bcast(x, n, out.rank % size);                 \
     }                                                           \
     else
-    SELECT(ARMCI_INT,       int,        MPI_2INT)
-    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT)
-    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT)
-    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT)
-    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT)
+    SELECT(ARMCI_INT,       int,        MPI_2INT, INT_MIN, INT_MAX)
+    SELECT(ARMCI_LONG,      long,       MPI_LONG_INT, LONG_MIN, LONG_MAX)
+    SELECT(ARMCI_LONG_LONG, long long,  MPI_LONGLONG_INT, LLONG_MIN, LLONG_MAX)
+    SELECT(ARMCI_FLOAT,     float,      MPI_FLOAT_INT, -HUGE_VALF, HUGE_VALF)
+    SELECT(ARMCI_DOUBLE,    double,     MPI_DOUBLE_INT, -HUGE_VAL, HUGE_VAL)
     {
         comex_error("unsupported SELECT operation", 1);
     }
diff --git a/global/src/select.c b/global/src/select.c
index e287928..9c77298 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -144,6 +144,7 @@ static void snga_select_elem(Integer type, char* op, void *ptr, Integer elems, e
                       Integer *ind)
 {
   Integer i;
+  *ind = 0;
   switch (type){
     int *ia,ival;
     double *da,dval;
-- 
2.43.0


From 34e02d134cd4f1816426ad22ad26e940ab429780 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:27:14 +0000
Subject: [PATCH 15/48] fix: dot product of arrays that differ only in their
 ghost cells

snga_dot_local_patch indexed the second array with the leading dimensions
of the first.
---
 global/src/global.npatch.c | 52 +++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/global/src/global.npatch.c b/global/src/global.npatch.c
index 0ac99f0..1af65fd 100644
--- a/global/src/global.npatch.c
+++ b/global/src/global.npatch.c
@@ -936,7 +936,7 @@ void pnga_copy_patch(char *trans,
 
 
 static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
-                          Integer *hiA, Integer *ldA, void *A_ptr, void *B_ptr,
+                          Integer *hiA, Integer *ldA, void *A_ptr, Integer *ldB, void *B_ptr,
                           int *alen, void *retval)
 {
   int isum;
@@ -946,8 +946,9 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
   float fsum;
   long lsum;
   long long llsum;
-  Integer i, j, n1dim, idx;
+  Integer i, j, n1dim, idx, idxB;
   Integer bvalue[MAXDIM], bunit[MAXDIM], baseldA[MAXDIM];
+  Integer baseldB[MAXDIM];
 
   isum = 0; dsum = 0.; zsum.real = 0.; zsum.imag = 0.; fsum = 0;lsum=0;llsum=0;
   csum.real = 0.; csum.imag = 0.;
@@ -962,41 +963,45 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
    * baseldA[2] = ldA[0] * ldA[1] * ldA[2] .....
    */
   baseldA[0] = ldA[0]; baseldA[1] = baseldA[0] *ldA[1];
+  baseldB[0] = ldB[0]; baseldB[1] = baseldB[0] *ldB[1];
   for(i=2; i<andim; i++) {
     bvalue[i] = 0;
     bunit[i] = bunit[i-1] * (hiA[i-1] - loA[i-1] + 1);
     baseldA[i] = baseldA[i-1] * ldA[i];
+    baseldB[i] = baseldB[i-1] * ldB[i];
   }
 
   /* compute "local" contribution to the dot product */
   switch (atype){
     case C_INT:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
           isum += ((int *)A_ptr)[idx+j] *
-            ((int *)B_ptr)[idx+j];
+            ((int *)B_ptr)[idxB+j];
       }
       *(int*)retval += isum;
       break;
     case C_DCPL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++) {
           DoubleComplex a = ((DoubleComplex *)A_ptr)[idx+j];
-          DoubleComplex b = ((DoubleComplex *)B_ptr)[idx+j];
+          DoubleComplex b = ((DoubleComplex *)B_ptr)[idxB+j];
           zsum.real += a.real*b.real  - b.imag * a.imag;
           zsum.imag += a.imag*b.real  + b.imag * a.real;
         }
@@ -1006,16 +1011,17 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
       break;
     case C_SCPL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++) {
           SingleComplex a = ((SingleComplex *)A_ptr)[idx+j];
-          SingleComplex b = ((SingleComplex *)B_ptr)[idx+j];
+          SingleComplex b = ((SingleComplex *)B_ptr)[idxB+j];
           csum.real += a.real*b.real  - b.imag * a.imag;
           csum.imag += a.imag*b.real  + b.imag * a.real;
         }
@@ -1025,61 +1031,65 @@ static void snga_dot_local_patch(Integer atype, Integer andim, Integer *loA,
       break;
     case  C_DBL:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
           dsum += ((double*)A_ptr)[idx+j] *
-            ((double*)B_ptr)[idx+j];
+            ((double*)B_ptr)[idxB+j];
       }
       *(double*)retval += dsum;
       break;
     case C_FLOAT:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
           fsum += ((float *)A_ptr)[idx+j] *
-            ((float *)B_ptr)[idx+j];
+            ((float *)B_ptr)[idxB+j];
       }
       *(float*)retval += fsum;
       break;         
     case C_LONG:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
           lsum += ((long *)A_ptr)[idx+j] *
-            ((long *)B_ptr)[idx+j];
+            ((long *)B_ptr)[idxB+j];
       }
       *(long*)retval += lsum;
       break;                                     
     case C_LONGLONG:
       for(i=0; i<n1dim; i++) {
-        idx = 0;
+        idx = 0; idxB = 0;
         for(j=1; j<andim; j++) {
           idx += bvalue[j] * baseldA[j-1];
+          idxB += bvalue[j] * baseldB[j-1];
           if(((i+1) % bunit[j]) == 0) bvalue[j]++;
           if(bvalue[j] > (hiA[j]-loA[j])) bvalue[j] = 0;
         }
 
         for(j=0; j<(hiA[0]-loA[0]+1); j++)
           llsum += ((long long *)A_ptr)[idx+j] *
-            ((long long *)B_ptr)[idx+j];
+            ((long long *)B_ptr)[idxB+j];
       }
       *(long long*)retval += llsum;
       break;
@@ -1239,7 +1249,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
       pnga_access_ptr(g_A, loA, hiA, &A_ptr, ldA);
       pnga_access_ptr(g_B, loA, hiA, &B_ptr, ldB);
 
-      snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+      snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, ldB, B_ptr,
           &alen, retval);
       /* release access to the data */
       pnga_release(g_A, loA, hiA);
@@ -1307,7 +1317,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
             B_ptr = (void*)((long long*)(B_ptr) + offset);
             break;                                     
         }
-        snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+        snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, ldB, B_ptr,
             &alen, retval);
       }
     }
@@ -1327,7 +1337,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
         pnga_access_ptr(g_A, loA, hiA, &A_ptr, ldA);
         pnga_access_ptr(g_B, loA, hiA, &B_ptr, ldB);
 
-        snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+        snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, ldB, B_ptr,
             &alen, retval);
         /* release access to the data */
         pnga_release(g_A, loA, hiA);
@@ -1391,7 +1401,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
                 B_ptr = (void*)((long long*)(B_ptr) + offset);
                 break;                                     
             }
-            snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+            snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, ldB, B_ptr,
                 &alen, retval);
             /* release access to the data */
             pnga_release_block(g_A, i);
@@ -1467,7 +1477,7 @@ void pnga_dot_patch(Integer g_a, char *t_a, Integer *alo, Integer *ahi, Integer
                 B_ptr = (void*)((long long*)(B_ptr) + offset);
                 break;                                     
             }
-            snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, B_ptr,
+            snga_dot_local_patch(atype, andim, loA, hiA, ldA, A_ptr, ldB, B_ptr,
                 &alen, retval);
             /* release access to the data */
             pnga_release_block_grid(g_A, index);
-- 
2.43.0


From 9bfc24ae1ad60d6563890dfa6265656a23f68766 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:28:46 +0000
Subject: [PATCH 16/48] fix: select_elem with blocks stored inside a larger
 piece of memory (ghost cells, ScaLAPACK and tiled layouts)

---
 global/src/select.c | 49 ++++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 23 deletions(-)

diff --git a/global/src/select.c b/global/src/select.c
index 9c77298..8bf48b0 100644
--- a/global/src/select.c
+++ b/global/src/select.c
@@ -285,37 +285,40 @@ void pnga_select_elem(Integer g_a, char* op, void* val, Integer *subscript)
   first_pass = 1;
   pnga_local_iterator_init(g_a, &hdl_a);
   while (pnga_local_iterator_next(&hdl_a, lo, hi, &cptr, ld)) {
-    Integer update;
-    GET_ELEMS(ndim,lo,hi,ld,&elems);
+    Integer update, row, nrows=1;
+    /* the block may be part of a larger piece of memory, so that only the
+     * elements of a row are known to be next to each other */
+    for (i=1; i<ndim; i++) nrows *= hi[i]-lo[i]+1;
+    elems = hi[0]-lo[0]+1;
     participate =1;
-    ptr = (void*)cptr;
 
-    if (first_pass) {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &info, &ind);
-
-      /* determine element subscript in the ndim-array */
-      for(i = 0; i < ndim; i++){
-        int elems = (int)( hi[i]-lo[i]+1);
-        info.subscr[i] = ind%elems + lo[i] ;
-        ind /= elems;
+    for (row=0; row<nrows; row++) {
+      Integer rsub[MAXDIM], rest=row, offset=0, stride=1;
+      for (i=1; i<ndim; i++) {
+        rsub[i] = rest%(hi[i]-lo[i]+1);
+        rest /= hi[i]-lo[i]+1;
+        stride *= ld[i-1];
+        offset += rsub[i]*stride;
       }
-    } else {
-      /* select local element */
-      snga_select_elem(type, op, ptr, elems, &new_info, &ind);
+      ptr = (void*)(cptr + offset*GAsizeofM(type));
 
-      /* compare with old block */
-      snga_compare_elem(type,op, &new_info, &info, &update);
+      if (first_pass) {
+        /* select local element */
+        snga_select_elem(type, op, ptr, elems, &info, &ind);
+        update = 1;
+      } else {
+        /* select local element */
+        snga_select_elem(type, op, ptr, elems, &new_info, &ind);
+        /* compare with old row */
+        snga_compare_elem(type,op, &new_info, &info, &update);
+      }
       /* determine element subscript in the ndim-array */
       if (update) {
-        for(i = 0; i < ndim; i++){
-          int elems = (int)( hi[i]-lo[i]+1);
-          info.subscr[i] = ind%elems + lo[i] ;
-          ind /= elems;
-        }
+        info.subscr[0] = ind + lo[0];
+        for (i=1; i<ndim; i++) info.subscr[i] = rsub[i] + lo[i];
       }
+      first_pass = 0;
     }
-    first_pass = 0;
   }
 #if 0
   if (num_blocks < 0) {
-- 
2.43.0


From b1aa68980377c506a195840c5a116b960cf8eb8b Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:35:23 +0000
Subject: [PATCH 17/48] fix: row and column scaling of complex matrices
 multiplied the parts separately

---
 global/src/matrix.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 814fe30..1ba8c03 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2471,16 +2471,18 @@ static void sgai_scale_row_values(Integer type, Integer *lo,
           dca = (DoubleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[i]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[i]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[i];
+              dca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              dca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
           fca = (SingleComplex *) ptr;
           for (i = 0; i < hi[0]-lo[0]+1; i++)
             for(j=0;j<hi[1]-lo[1]+1;j++) {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[i]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[i]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[i];
+              fca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              fca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
@@ -2677,8 +2679,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (dca[j*ld+i]).real *= (((DoubleComplex *) buf)[j]).real;
-              (dca[j*ld+i]).imag *= (((DoubleComplex *) buf)[j]).imag;
+              DoubleComplex x = dca[j*ld+i], y = ((DoubleComplex *) buf)[j];
+              dca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              dca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         case C_SCPL:
@@ -2686,8 +2689,9 @@ static void sgai_scale_col_values(Integer type, Integer *lo,
           for(j=0;j<hi[1]-lo[1]+1;j++)
             for (i = 0; i < hi[0]-lo[0]+1; i++)
             {
-              (fca[j*ld+i]).real *= (((SingleComplex *) buf)[j]).real;
-              (fca[j*ld+i]).imag *= (((SingleComplex *) buf)[j]).imag;
+              SingleComplex x = fca[j*ld+i], y = ((SingleComplex *) buf)[j];
+              fca[j*ld+i].real = x.real*y.real - x.imag*y.imag;
+              fca[j*ld+i].imag = x.real*y.imag + x.imag*y.real;
             }
           break;
         default:
-- 
2.43.0


From 6ef869da20c7325a00dc98a9babcdd37c77bad9e Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 18/48] fix: median of patches of differently distributed or
 block distributed arrays

The test for compatible distributions was inverted, so that arrays with
different distributions ended in an error, and for block distributed
arrays the result was written outside of the patch.
---
 global/src/matrix.c | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 1ba8c03..968563c 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -404,7 +404,8 @@ void pnga_median_patch(
     pnga_distribution (g_C, me, loC, hiC);
     pnga_distribution (g_M, me, loM, hiM);
 
-    if (!pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (andim, loA, hiA, mndim, loM, hiM) &&
+        pnga_comp_patch (andim, alo, ahi, mndim, mlo, mhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -422,7 +423,8 @@ void pnga_median_patch(
       pnga_distribution (g_A, me, loA, hiA);
     }
 
-    if (!pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (bndim, loB, hiB, mndim, loM, hiM) &&
+        pnga_comp_patch (bndim, blo, bhi, mndim, mlo, mhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -440,7 +442,8 @@ void pnga_median_patch(
       pnga_distribution (g_B, me, loB, hiB);
     }
 
-    if (!pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM)) compatible = 1;
+    if (pnga_comp_patch (cndim, loC, hiC, mndim, loM, hiM) &&
+        pnga_comp_patch (cndim, clo, chi, mndim, mlo, mhi)) compatible = 1;
     else compatible = 0;
     /* pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "*"); */
     pnga_gop(pnga_type_f2c(MT_F_INT), &compatible, 1, "&&");
@@ -534,19 +537,20 @@ void pnga_median_patch(
         /*hid[j] = hiM[j];*/
       }
 
-      /* evaluate offsets for system */
-      offset = 0;
-      last = mndim - 1;
-      jtot = 1;
-      for (j=0; j<last; j++) {
-        offset += (loM[j] - lod[j])*jtot;
-        jtot *= ldM[j];
-      }
-      offset += (loM[last]-lod[last])*jtot;
-
-      sgai_median_patch_values(type, mndim, loM, hiM, ldM,
-          A_ptr, B_ptr, C_ptr, M_ptr, offset);
+      if (pnga_patch_intersect(mlo, mhi, loM, hiM, mndim)) {
+        /* evaluate offsets for system */
+        offset = 0;
+        last = mndim - 1;
+        jtot = 1;
+        for (j=0; j<last; j++) {
+          offset += (loM[j] - lod[j])*jtot;
+          jtot *= ldM[j];
+        }
+        offset += (loM[last]-lod[last])*jtot;
 
+        sgai_median_patch_values(type, mndim, loM, hiM, ldM,
+            A_ptr, B_ptr, C_ptr, M_ptr, offset);
+      }
     }
 #else
     if (num_blocks_m < 0) {
-- 
2.43.0


From 7fdc33a4c4c88b67197cdb4843c0f2b0d5db5935 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:36:45 +0000
Subject: [PATCH 19/48] fix: zero_diagonal of blocks whose first element is not
 on the diagonal

---
 global/src/matrix.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/matrix.c b/global/src/matrix.c
index 968563c..6515c22 100644
--- a/global/src/matrix.c
+++ b/global/src/matrix.c
@@ -2303,6 +2303,7 @@ void pnga_zero_diagonal(Integer g_a)
       hi[0] = GA_MIN (hiA[0], hiA[1]);
       hi[1] = GA_MIN (hiA[0], hiA[1]);
       if (hi[0] >= lo[0]) {
+        offset = (lo[0]-loA[0]) + (lo[1]-loA[1])*ld;
         sgai_zero_diagonal_block(g_a, ptr, lo, hi, ld, offset, type);
       }
     }
-- 
2.43.0


From dffbf70d759f584be38b143224cdabd28a5f1631 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 20/48] fix: symmetrize of arrays with ghost cells ignored the
 leading dimensions

---
 global/src/ga_symmetr.c | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/global/src/ga_symmetr.c b/global/src/ga_symmetr.c
index 9b29a88..306f747 100644
--- a/global/src/ga_symmetr.c
+++ b/global/src/ga_symmetr.c
@@ -18,27 +18,33 @@
 #include "ga-wapi.h"
 
 static void gai_add(
-        Integer *lo, Integer *hi, void *a, void *b, DoublePrecision alpha,
-        Integer type, Integer nelem, Integer ndim)
+        Integer *lo, Integer *hi, void *a, Integer *lda, void *b,
+        DoublePrecision alpha, Integer ndim)
 {
-  Integer i, j, m=0;
-  Integer nrow, ncol, indexA=0, indexB=0;
+  Integer i, j, k, d, rem;
+  Integer nrow, ncol, indexA, indexB;
   DoublePrecision *A = (DoublePrecision *)a, *B = (DoublePrecision*)b;
-  Integer offset1=1, offset2=1;
+  Integer nlead=1, stride[GA_MAX_DIM];
 
   nrow = hi[ndim-2] - lo[ndim-2] + 1;
   ncol = hi[ndim-1] - lo[ndim-1] + 1;
   
-  for(i=0; i<ndim-2; i++) {
-    offset1 *= hi[i] - lo[i] + 1;
-    offset2 *= hi[i] - lo[i] + 1;
-  }
-  offset1 *= nrow;
+  /* the block A may be stored inside of a larger piece of memory */
+  stride[0] = 1;
+  for(d=1; d<ndim; d++) stride[d] = stride[d-1]*lda[d-1];
+  for(d=0; d<ndim-2; d++) nlead *= hi[d] - lo[d] + 1;
   
-  for(j=0; j<offset2; ++j,indexA=j,indexB=j,m=0) {
-    for(i=0; i<nrow*ncol; i++, indexA += offset1, indexB += offset2) {
-      if(indexA >= nelem) indexA = j + ++m*offset2;
-      A[indexA] = alpha *(A[indexA] + B[indexB]);
+  for(k=0; k<nlead; k++) {
+    for(i=0; i<nrow; i++) {
+      indexA = i*stride[ndim-2];
+      for(d=0, rem=k; d<ndim-2; d++) {
+        indexA += (rem % (hi[d] - lo[d] + 1))*stride[d];
+        rem /= hi[d] - lo[d] + 1;
+      }
+      indexB = k + i*ncol*nlead;
+      for(j=0; j<ncol; j++, indexA += stride[ndim-1], indexB += nlead) {
+        A[indexA] = alpha *(A[indexA] + B[indexB]);
+      }
     }
   }
 }
@@ -105,7 +111,7 @@ void pnga_symmetrize(Integer g_a) {
     pnga_sync(); 
 
     if(have_data) {
-      gai_add(alo, ahi, a_ptr, b_ptr, alpha, type, nelem, ndim);
+      gai_add(alo, ahi, a_ptr, lda, b_ptr, alpha, ndim);
       pnga_release_update(g_a, alo, ahi);
       pnga_free(b_ptr);
     }
-- 
2.43.0


From a7c20f6d4b551eaa5524c04e1e23ef3d331aed6f Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 21/48] fix: matmul_patch_alt transposed the wrong dimensions
 of multidimensional left factors

---
 global/src/matmul.c | 49 +++++++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 28 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index 0c8dc5f..e17af89 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2419,7 +2419,7 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
     Integer g_b, Integer blo[], Integer bhi[], 
     Integer g_c, Integer clo[], Integer chi[])
 {
-  int aivec, bivec;
+  int aivec = -1, bivec = -1;
   int e, d, ipos, jpos;
   Integer atype, btype, arank, brank, lo, hi;
   Integer adims[GA_MAX_DIM],bdims[GA_MAX_DIM];
@@ -2427,7 +2427,8 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
    * non-unit dimensions */
   if (*transa == 't' || *transa == 'T') {
     pnga_inquire(g_a, &atype, &arank, adims);
-    aivec = -1;
+    ipos = 0;
+    jpos = 1;
     if (arank > 2) {
       ipos = -1;
       jpos = -1;
@@ -2445,7 +2446,8 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
         }
       }
       if (e == 0) {
-        aivec = -1;
+        ipos = 0;
+        jpos = 1;
       } else if (e == 1) {
         /* array is a vector */
         aivec = ipos;
@@ -2455,20 +2457,19 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
           jpos = ipos;
           ipos--;
         }
-      } else {
-        aivec = -1;
       }
     }
-    lo = alo[0];
-    hi = ahi[0];
-    alo[0] = alo[1];
-    ahi[0] = ahi[1];
-    alo[1] = lo;
-    ahi[1] = hi;
+    lo = alo[ipos];
+    hi = ahi[ipos];
+    alo[ipos] = alo[jpos];
+    ahi[ipos] = ahi[jpos];
+    alo[jpos] = lo;
+    ahi[jpos] = hi;
   }
   if (*transb == 't' || *transb == 'T') {
     pnga_inquire(g_b, &btype, &brank, bdims);
-    bivec = -1;
+    ipos = 0;
+    jpos = 1;
     if (brank > 2) {
       ipos = -1;
       jpos = -1;
@@ -2486,7 +2487,8 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
         }
       }
       if (e == 0) {
-        bivec = -1;
+        ipos = 0;
+        jpos = 1;
       } else if (e == 1) {
         /* array is a vector */
         bivec = ipos;
@@ -2496,23 +2498,14 @@ void pnga_matmul_patch_alt(char *transa, char *transb, void *alpha, void *beta,
           jpos = ipos;
           ipos--;
         }
-      } else {
-        bivec = -1;
       }
-      lo = blo[ipos];
-      hi = bhi[ipos];
-      blo[ipos] = blo[jpos];
-      bhi[ipos] = bhi[jpos];
-      blo[jpos] = lo;
-      bhi[jpos] = hi;
-    } else {
-      lo = blo[0];
-      hi = bhi[0];
-      blo[0] = blo[1];
-      bhi[0] = bhi[1];
-      blo[1] = lo;
-      bhi[1] = hi;
     }
+    lo = blo[ipos];
+    hi = bhi[ipos];
+    blo[ipos] = blo[jpos];
+    bhi[ipos] = bhi[jpos];
+    blo[jpos] = lo;
+    bhi[jpos] = hi;
   }
 
 
-- 
2.43.0


From 62b4e2c9bdb51b085f15f4d0c5406c2859728cf8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Thu, 19 Nov 2026 22:44:17 +0000
Subject: [PATCH 22/48] fix: multiplication of patches of block distributed
 matrices used the wrong rows, columns and buffer size

---
 global/src/matmul.c | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/global/src/matmul.c b/global/src/matmul.c
index e17af89..885cb7b 100644
--- a/global/src/matmul.c
+++ b/global/src/matmul.c
@@ -2658,19 +2658,18 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
     Integer num_blocks;
     Integer offset, elemsize, ld;
     void *a_buf, *b_buf, *c_buf;
-    Integer size_a, size_b, size_c;
     /*
     printf("p[%d] loC[0]: %d hiC[0]: %d loC[1]: %d hiC[1]: %d lC[0]: %d\n",
         pnga_nodeid(),loC[0],hiC[0],loC[1],hiC[1],lC[0]);
         */
-    /* Copy limits since patch intersect modifies loC array */
+    /* Copy limits since patch intersect modifies lot array */
     for (n=0; n<crank; n++) {
       lot[n] = loC[n];
       hit[n] = hiC[n];
     }
 
     /* check to see if this block overlaps with patch on C */
-    if (pnga_patch_intersect(loC,hiC,lot,hit,crank)) {
+    if (pnga_patch_intersect(clo,chi,lot,hit,crank)) {
       int istart, in;
 
       /* Calculating number of blocks for inner dimension. Assume that 
@@ -2682,9 +2681,8 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
       offset = lC[0]*(lot[1]-loC[1])+lot[0]-loC[0];
       elemsize = GAsizeofM(atype);
       c_buf = (void*)((char*)src_ptr + elemsize*offset);
-      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
+      a_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[0]-lot[0]+1)*elemsize);
       b_buf = (void*)malloc((hit[0]-lot[0]+1)*(hit[1]-lot[1]+1)*elemsize);
-      size_c = (hit[0]-lot[0]+1)*(hit[1]-lot[1]+1);
 
       /* calculate starting block index */
       istart = (lot[0]-clo[0])/(hit[0]-lot[0]+1);
@@ -2698,16 +2696,12 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         in = istart + nb;
         in = in%num_blocks;
         nlo = alo[1]+in*(hit[0]-lot[0]+1);
-        loA[0] = lot[0];
-        hiA[0] = hit[0];
+        loA[0] = alo[0]+lot[0]-clo[0];
+        hiA[0] = alo[0]+hit[0]-clo[0];
         loA[1] = nlo;
         hiA[1] = loA[1]+(hit[0]-lot[0]);
         if (hiA[1] > ahi[1]) hiA[1] = ahi[1];
         ld = hiA[0]-loA[0]+1;
-        size_a = (hiA[0]-loA[0]+1)*(hiA[1]-loA[1]+1);
-        if (size_a > size_c) {
-          printf("p[%d] size_a: %d size_c: %d\n",(int)pnga_nodeid(),(int)size_a,(int)size_c);
-        }
         /*
     printf("p[%d] loA[0]: %d hiA[0]: %d loA[1]: %d hiA[1]: %d\n",pnga_nodeid(),
         loA[0],hiA[0],loA[1],hiA[1]);
@@ -2716,18 +2710,13 @@ void pnga_matmul_basic(char *transa, char *transb, void *alpha, void *beta,
         /*
         printBlock("Matrix A",atype,a_buf,loA,hiA,&ld);
         */
-        loB[1] = lot[1];
-        hiB[1] = hit[1];
+        loB[1] = blo[1]+lot[1]-clo[1];
+        hiB[1] = blo[1]+hit[1]-clo[1];
         nlo = blo[0]+in*(hit[0]-lot[0]+1);
         loB[0] = nlo;
         hiB[0] = loB[0]+(hit[0]-lot[0]);
         if (hiB[0] > bhi[0]) hiB[0] = bhi[0];
         ld = hiB[0]-loB[0]+1;
-        size_b = (hiB[0]-loB[0]+1)*(hiB[1]-loB[1]+1);
-        if (size_b > size_c) {
-          printf("p[%d] size_b: %d size_c: %d\n",(int)pnga_nodeid(),
-              (int)size_b,(int)size_c);
-        }
         /*
     printf("p[%d] loB[0]: %d hiB[0]: %d loB[1]: %d hiB[1]: %d\n",pnga_nodeid(),
         loB[0],hiB[0],loB[1],hiB[1]);
-- 
2.43.0


From 6bce138d463d471f5aa8f50c23fd861f51217573 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 23/48] fix: bin_sorter read the bin ranges before other
 processes had stored them

---
 global/src/sparse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 94929d2..0314994 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -841,6 +841,8 @@ Integer tlo[2], thi[2];
           }
       }
    }
+   /* the ranges of a process may be stored by other processes */
+   pnga_sync();
    return TRUE;
 }
 
-- 
2.43.0


From 10f18c44bfb5cf234e355bbdc86f1a16152299b2 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:32:05 +0000
Subject: [PATCH 24/48] fix: bin_sorter never released its table of bin ranges
 and its counts

---
 global/src/sparse.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/sparse.c b/global/src/sparse.c
index 0314994..3456636 100644
--- a/global/src/sparse.c
+++ b/global/src/sparse.c
@@ -890,9 +890,11 @@ Integer g_range;
             ptr+=elems;
         }
         pnga_release_update(g_bin, &lo, &hi);             
+        free(bin_cnt);
     }
 
     pnga_sync();
+    pnga_destroy(g_range);
 }
 
 
-- 
2.43.0


From 24864ce1fb73071bf7491dbd8b3d78d89659df12 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 25/48] fix: C interface of get_field and put_field added one
 to the leading dimensions of the buffer

---
 global/src/capi.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index b0aee49..c2ba2c2 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -5290,7 +5290,7 @@ void NGA_Get_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_get_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
@@ -5303,7 +5303,7 @@ void NGA_Nbget_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbget_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5316,7 +5316,7 @@ void NGA_Nbput_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_nbput_field(a, _alo, _ahi, foff, fsize, buf, _ld, (Integer*)nbhandle);
 }
@@ -5329,7 +5329,7 @@ void NGA_Put_field(int g_a, int *lo, int *hi, int foff, int fsize,
   Integer _ld[MAXDIM];
   COPYINDEX_C2F(lo,_alo, andim);
   COPYINDEX_C2F(hi,_ahi, andim);
-  COPYINDEX_C2F(ld, _ld, andim-1);
+  COPYC2F(ld, _ld, andim-1);
 
   wnga_put_field(a, _alo, _ahi, foff, fsize, buf, _ld);
 }
-- 
2.43.0


From 4f64b7a41593e2889a08baafea101ce8cdd9ffbb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 26/48] fix: C interface of access_ghost_element never returned
 the leading dimensions

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index c2ba2c2..81d42cd 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -2507,8 +2507,8 @@ void NGA_Access_ghost_element(int g_a, void *ptr, int subscript[], int ld[])
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C(_ld, ld, ndim-1);
 }
 
 void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t ld[])
@@ -2519,8 +2519,8 @@ void NGA_Access_ghost_element64(int g_a, void *ptr, int64_t subscript[], int64_t
      Integer _ld[MAXDIM];
 
      COPYINDEX_C2F(subscript, _subscript, ndim);
-     COPYINDEX_C2F(ld, _ld, ndim-1);
      wnga_access_ghost_element_ptr(a, ptr, _subscript, _ld);
+     COPYF2C_64(_ld, ld, ndim-1);
 }
 
 void NGA_Release(int g_a, int lo[], int hi[])
-- 
2.43.0


From 28253e845f0ad25c03f08b359f5f8bd91f3aa24a Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 27/48] fix: C interface of nbget_ghost_dir added one to the
 direction mask

---
 global/src/capi.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 81d42cd..193b86a 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1574,7 +1574,7 @@ void NGA_NbGet_ghost_dir(int g_a, int mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
@@ -1583,7 +1583,7 @@ void NGA_NbGet_ghost_dir64(int g_a, int64_t mask[], ga_nbhdl_t* nbhandle)
     Integer a=(Integer)g_a;
     Integer ndim = wnga_ndim(a);
     Integer _ga_lo[MAXDIM];
-    COPYINDEX_C2F(mask,_ga_lo, ndim);
+    COPYC2F(mask,_ga_lo, ndim);
     wnga_nbget_ghost_dir(a, _ga_lo,(Integer *)nbhandle);
 }
 
-- 
2.43.0


From 442730a674d55170ffcaf3d580e5fcf9f699491c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 28/48] fix: C interface of update_ghost_dir did not reverse
 the dimension

---
 global/src/capi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 193b86a..6d682a7 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -1564,7 +1564,7 @@ int NGA_Update_ghost_dir(int g_a, int dimension, int dir, int flag)
     Integer idir = (Integer)dir;
     logical iflag = (logical)flag;
     logical st;
-    idim++;
+    idim = wnga_ndim(a) - idim; /* dimensions are reversed */
     st = wnga_update_ghost_dir(a,idim,idir,iflag);
     return (int)st;
 }
-- 
2.43.0


From 4b935d93db3445e7f9c9e55a67c43fbaf5dc9946 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:42:35 +0000
Subject: [PATCH 29/48] fix: GA_Print_patch used the upper column as the lower
 one and an uninitialized upper column

---
 global/src/capi.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index 6d682a7..bf7c636 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -4294,7 +4294,7 @@ void GA_Print_patch(int g_a,int ilo,int ihi,int jlo,int jhi,int pretty)
     Integer _ga_lo[MAXDIM], _ga_hi[MAXDIM];
 
     lo[0] = ilo; lo[1] = jlo;
-    hi[0] = ihi; lo[1] = jhi;
+    hi[0] = ihi; hi[1] = jhi;
     COPYINDEX_C2F(lo,_ga_lo,2);
     COPYINDEX_C2F(hi,_ga_hi,2);
     wnga_print_patch(a, _ga_lo, _ga_hi, p);
-- 
2.43.0


From 238e33df001241c5250ccb8a0c206b0a3c0672cb Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 00:42:43 +0000
Subject: [PATCH 30/48] fix: C interface of scatter and gather with 64 bit
 subscripts read them as 32 bit ones

---
 global/src/capi.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/global/src/capi.c b/global/src/capi.c
index bf7c636..051eff1 100644
--- a/global/src/capi.c
+++ b/global/src/capi.c
@@ -3070,7 +3070,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3080,9 +3079,6 @@ void NGA_Scatter64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_scatter(a, v, subsArray, 1, nv);
-#endif
 }
 
 void NGA_Scatter_flat64(int g_a, void *v, int64_t subsArray[], int64_t n)
@@ -3152,7 +3148,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3162,9 +3157,6 @@ void NGA_Scatter_acc64(int g_a, void *v, int64_t* subsArray[], int64_t n, void *
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_scatter_acc(a, v, _subs_array, 0, nv, alpha);
     free(_subs_array);
-#else
-    wnga_scatter_acc(a, v, subsArray, 1, nv, alpha);
-#endif
 }
 
 void NGA_Scatter_acc_flat64(int g_a, void *v, int64_t subsArray[], int64_t n, void *alpha)
@@ -3237,7 +3229,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
     int i;
     Integer a = (Integer)g_a;
     Integer nv = (Integer)n;
-#ifndef USE_GATSCAT_NEW
     Integer ndim = wnga_ndim(a);
     Integer *_subs_array;
     _subs_array = (Integer *)malloc((int)ndim* n * sizeof(Integer));
@@ -3249,9 +3240,6 @@ void NGA_Gather64(int g_a, void *v, int64_t* subsArray[], int64_t n)
             _subs_array[idx*ndim+(ndim-i-1)] = subsArray[idx][i] + 1;
     wnga_gather(a, v, _subs_array, 0, nv);
     free(_subs_array);
-#else
-    wnga_gather(a, v, subsArray, 1, nv);
-#endif
 }
 
 
-- 
2.43.0


From f1e0cc57b72b208269f20a3e1c8f57a60c3213e3 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:12:21 +0000
Subject: [PATCH 31/48] fix: duplicate of a process group had other members
 than the group

ga_pgroup_duplicate read the group table at index -1 for the world group,
and handed list positions instead of processor indices to ARMCI for every
other one.
---
 global/src/base.c | 91 ++++++++---------------------------------------
 1 file changed, 15 insertions(+), 76 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 56d1195..c3c9c6d 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1219,90 +1219,29 @@ Integer pnga_pgroup_create(Integer *list, Integer count)
 
 Integer pnga_pgroup_duplicate(Integer grp)
 {
-    Integer pgrp_handle, i, j, nprocs, itmp;
-    int tmp_count;
-    int *tmp_list, *tmp2_list;
-#ifdef MSG_COMMS_MPI
-    ARMCI_Group *tmpgrp;
-#endif
+    Integer pgrp_handle, i, count;
+    Integer *list;
     Integer save_grp;
     if (grp != -1 && !PGRP_LIST[grp].actv) {
        pnga_error(" Group is not active ", grp);
     }
 
-    /*** Get next free process group handle ***/
-    pgrp_handle =-1; i=0;
-    do{
-       if(!PGRP_LIST[i].actv) pgrp_handle=i;
-       i++;
-    }while(i<_max_global_array && pgrp_handle==-1);
-    if( pgrp_handle == -1)
-       pnga_error(" Too many process groups ", (Integer)_max_global_array);
- 
-    /* Allocate memory for arrays containg processor maps and initialize
-       values */
-    PGRP_LIST[pgrp_handle].map_proc_list
-       = (int*)malloc(GAnproc*sizeof(int)*2);
-    PGRP_LIST[pgrp_handle].inv_map_proc_list
-       = PGRP_LIST[pgrp_handle].map_proc_list + GAnproc;
-    for (i=0; i<GAnproc; i++)
-       PGRP_LIST[pgrp_handle].map_proc_list[i] = -1;
-    for (i=0; i<GAnproc; i++)
-       PGRP_LIST[pgrp_handle].inv_map_proc_list[i] = -1;
-    if (grp != -1) {
-      for (i=0; i<GAnproc; i++) {
-        PGRP_LIST[pgrp_handle].map_proc_list[i]
-          = PGRP_LIST[grp].map_proc_list[i];
-        PGRP_LIST[pgrp_handle].inv_map_proc_list[i]
-          = PGRP_LIST[grp].inv_map_proc_list[i];
-      }
-    } else {
-      for (i=0; i<GAnproc; i++) {
-        PGRP_LIST[pgrp_handle].map_proc_list[i]
-          = i;
-        PGRP_LIST[pgrp_handle].inv_map_proc_list[i]
-          = i;
-      }
+    /* Members of the group as absolute processor indices */
+    count = pnga_pgroup_nnodes(grp);
+    list = (Integer*)malloc(count*sizeof(Integer));
+    for (i=0; i<count; i++) {
+       list[i] = (grp == -1) ? i : (Integer)PGRP_LIST[grp].inv_map_proc_list[i];
     }
-    tmp_count = PGRP_LIST[grp].map_nproc;
 
-    tmp_list = (int*)malloc(GAnproc*sizeof(int));
-    tmp2_list = PGRP_LIST[grp].inv_map_proc_list;
-    save_grp = GA_Default_Proc_Group;
-    GA_Default_Proc_Group = PGRP_LIST[grp].parent;
-    if (grp != -1 && GA_Default_Proc_Group != -1) {
-       int parent = GA_Default_Proc_Group;
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[parent].map_proc_list[tmp2_list[i]];
-       }
-    } else if (grp != -1 && GA_Default_Proc_Group == -1) {
-       for (i=0; i<tmp_count; i++) {
-          tmp_list[i] = (int)PGRP_LIST[grp].map_proc_list[tmp2_list[i]];
-       }
-    } else {
-       for (i=0; i<GAnproc; i++) {
-          tmp_list[i] = i;
-       }
-    }
-    
-    PGRP_LIST[pgrp_handle].map_nproc = tmp_count;
-    PGRP_LIST[pgrp_handle].actv = 1;
-    PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
-    PGRP_LIST[pgrp_handle].mirrored = 0;
-    PGRP_LIST[pgrp_handle].map_nproc = PGRP_LIST[grp].map_nproc;
-#ifdef MSG_COMMS_MPI
-    tmpgrp = &PGRP_LIST[pgrp_handle].group;
-#if ENABLE_CHECKPOINT
-    if(ga_group_is_for_ft)
-       tmpgrp = ARMCI_Get_ft_group();
-    else
-#endif
-       ARMCI_Group_create(tmp_count, tmp_list, &PGRP_LIST[pgrp_handle].group);
-#endif
+    /* Indices are absolute, so create the new group from the world group,
+       whatever the default group is */
+    save_grp = pnga_pgroup_get_default();
+    pnga_pgroup_set_default(pnga_pgroup_get_world());
+    pgrp_handle = pnga_pgroup_create(list, count);
+    pnga_pgroup_set_default(save_grp);
+    if (grp != -1) PGRP_LIST[pgrp_handle].parent = PGRP_LIST[grp].parent;
 
-    GA_Default_Proc_Group = save_grp;
-    /* Clean up temporary arrays */
-    free(tmp_list);
+    free(list);
 
 #ifdef MSG_COMMS_MPI
     return pgrp_handle;
-- 
2.43.0


From 366a3b5698d2f7702efa946aaf8f04c04ae1cef8 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 32/48] fix: destroying a process group a second time freed it
 again

ga_pgroup_destroy is to report that the handle is not active; it freed the
ARMCI group and the member lists of the dead handle first.
---
 global/src/base.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index c3c9c6d..39488d4 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -1278,9 +1278,8 @@ logical pnga_pgroup_destroy(Integer grp_id)
 
   _ga_sync_begin = 1; _ga_sync_end=1; /*remove any previous sync masking*/
 
-#ifdef MSG_COMMS_MPI
-       ARMCI_Group_free(&PGRP_LIST[grp_id].group);
-#endif
+  if (PGRP_LIST[grp_id].actv == 0) return FALSE;
+
   /* check to make sure there are no GAs that depend on this process group */
   i=0;
   ok = 1;
@@ -1292,9 +1291,9 @@ logical pnga_pgroup_destroy(Integer grp_id)
   }while(i<_max_global_array && ok);
   if (!ok) pnga_error("Attempt to destroy process group with attached GAs",grp_id);
   
-  if (PGRP_LIST[grp_id].actv == 0) {
-    ret = FALSE;
-  }
+#ifdef MSG_COMMS_MPI
+       ARMCI_Group_free(&PGRP_LIST[grp_id].group);
+#endif
   PGRP_LIST[grp_id].actv = 0;
 
   /* Deallocate memory for lists */
-- 
2.43.0


From 614882d22c0a2332ee84eb816d487b821f58c9ef Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 33/48] fix: cached get ignored the leading dimensions of the
 buffer

A get that was answered from the read cache stored the patch as if the
buffer was packed.
---
 global/src/onesided.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 638c13f..9a4e5be 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -1229,7 +1229,7 @@ void pnga_get(Integer g_a, Integer *lo, Integer *hi,
           }
           /* copy data to recieve buffer */
           gai_mem_copy(GA[handle].elemsize,ndim,temp_buf,nstart,ncount,nld,buf,
-              bstart, ncount /*ld*/);
+              bstart, ld);
           match = 1;
           break;
         }
-- 
2.43.0


From e4e1211d066d1109675cde406b6a30a8c560e2ee Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 34/48] fix: unset_property left an array with the read_cache
 property

Gets after it were still answered from the cache, with values from before
later writes, and no property could be set again.
---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 39488d4..1425141 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2438,6 +2438,7 @@ void pnga_unset_property(Integer g_a) {
       }
     }
     GA[ga_handle].cache_head = NULL;
+    GA[ga_handle].property = NO_PROPERTY;
   } else {
     GA[ga_handle].property = NO_PROPERTY;
   }
-- 
2.43.0


From 163235fa1b8500bbb7bcce7e5ead516043409968 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 35/48] fix: setting the read_only property changed the default
 process group

The default group was saved and set to the world group, but not restored.
---
 global/src/base.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/global/src/base.c b/global/src/base.c
index 1425141..3a81727 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2069,6 +2069,7 @@ void pnga_set_property(Integer g_a, char* property) {
     }
     handle = pnga_pgroup_create(list, nprocs);
     free(list);
+    pnga_pgroup_set_default(dflt_grp);
     GA[ga_handle].p_handle = handle;
     GA[ga_handle].property = READ_ONLY;
 
-- 
2.43.0


From 865a9a02b6fccc88f78a6f0bd1345350feab3cef Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:21:04 +0000
Subject: [PATCH 36/48] fix: destroying a read_only array freed its process
 group before its memory

The memory was then released on a group that did not exist any more.
---
 global/src/base.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 3a81727..902c2a7 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3963,7 +3963,6 @@ int local_sync_begin,local_sync_end;
 
     if (GA[ga_handle].property == READ_ONLY) {
       free(GA[ga_handle].old_mapc);
-      pnga_pgroup_destroy(GA[ga_handle].p_handle);
     }
 
     if(GA[ga_handle].ptr[grp_me]==NULL){
@@ -4000,6 +3999,8 @@ int local_sync_begin,local_sync_end;
 
 
     if(local_sync_end)pnga_pgroup_sync(grp_id);
+    /* group of a read-only array is not needed any more */
+    if (GA[ga_handle].property == READ_ONLY) pnga_pgroup_destroy(grp_id);
     return(TRUE);
 }
 
-- 
2.43.0


From cbaba996ee560762f41c70435690f0f0e44766d5 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:22:03 +0000
Subject: [PATCH 37/48] fix: duplicate of an array with cached reads shared the
 list of cached reads

The new array answered gets with values of the original, and the list was
freed twice.
---
 global/src/base.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 902c2a7..7432427 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3742,6 +3742,11 @@ logical pnga_duplicate(Integer g_a, Integer *g_b, char* array_name)
   GA[ga_handle].cache = NULL;
   pnga_set_ghost_info(*g_b);
 
+  /*** reads of the new array are not cached ***/
+  GA[ga_handle].cache_head = NULL;
+  if (GA[ga_handle].property == READ_CACHE)
+    GA[ga_handle].property = NO_PROPERTY;
+
   /*** initialize and copy info for restricted arrays, if relevant ***/
   GA[ga_handle].rstrctd_list = NULL;
   GA[ga_handle].rank_rstrctd = NULL;
-- 
2.43.0


From 34de5584b68f2f7b995997cebd4bb9c5a70870f7 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:23:21 +0000
Subject: [PATCH 38/48] fix: unset_property of a read_only array used the
 blocks of the node copy

The size of the local block came from the read-only distribution, and the
scale factors used to locate elements were not restored.
---
 global/src/base.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/global/src/base.c b/global/src/base.c
index 7432427..074ffb8 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2354,6 +2354,12 @@ void pnga_unset_property(Integer g_a) {
       GA[ga_handle].mapc[i] = GA[ga_handle].old_mapc[i];
     }
     free(GA[ga_handle].old_mapc);
+    for (i=0; i<ndim; i++) {
+      GA[ga_handle].scale[i] = (double)GA[ga_handle].nblock[i]
+        / (double)GA[ga_handle].dims[i];
+    }
+    /* blocks are those of the original configuration from here on */
+    GA[ga_handle].property = NO_PROPERTY;
 
     pnga_distribution(g_a, grp_me, GA[ga_handle].lo, hi);
     chk = 1;
@@ -2398,7 +2404,6 @@ void pnga_unset_property(Integer g_a) {
     /* Generate parameters for new memory allocation. Distribution function
      * should work, so we can use that to find out how much data is on this
      * processor */
-    GA[ga_handle].property = NO_PROPERTY;
     pnga_distribution(g_a,GAme,lo,hi);
     chk = 1;
     nelem = 1;
-- 
2.43.0


From 5767b7fd68f864c551e601d6c871541faa729d55 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 39/48] fix: fill and randomize of mirrored arrays used the
 memory of another node

The pointer table of a mirrored array is indexed by world rank.
---
 global/src/base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 074ffb8..5ddde5d 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -4209,7 +4209,7 @@ void pnga_randomize(Integer g_a, void* val)
 
   if (num_blocks < 0) {
     /* Bruce..Please CHECK if this is correct */
-    if (grp_id >= 0){  
+    if (grp_id > 0){  
       Integer grp_me = PGRP_LIST[GA[handle].p_handle].map_proc_list[GAme];
       ptr = GA[handle].ptr[grp_me];
     }
@@ -4310,7 +4310,7 @@ void pnga_fill(Integer g_a, void* val)
 
   if (num_blocks < 0) {
     /* Bruce..Please CHECK if this is correct */
-    if (grp_id >= 0){  
+    if (grp_id > 0){  
       Integer grp_me = PGRP_LIST[GA[handle].p_handle].map_proc_list[GAme];
       ptr = GA[handle].ptr[grp_me];
     }
-- 
2.43.0


From d44c355892a1ea358e7683cffba02be9768b6eb4 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:26:32 +0000
Subject: [PATCH 40/48] fix: merge_distr_patch refused patches that reach the
 upper bound of a dimension

Patch subscripts start at one; the range check was for subscripts from zero.
---
 global/src/base.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 5ddde5d..6e0252b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -5456,13 +5456,13 @@ void pnga_merge_distr_patch(Integer g_a, Integer *alo, Integer *ahi,
 
   for (i=0; i<adim; i++) {
     idim = (Integer)GA[a_handle].dims[i];
-    if (alo[i] < 0 || alo[i] >= idim || ahi[i] < 0 || ahi[i] >= idim ||
+    if (alo[i] < 1 || alo[i] > idim || ahi[i] < 1 || ahi[i] > idim ||
         alo[i] > ahi[i])
       pnga_error("Invalid patch index on mirrored GA",0);
   }
   for (i=0; i<bdim; i++) {
     idim = GA[b_handle].dims[i];
-    if (blo[i] < 0 || blo[i] >= idim || bhi[i] < 0 || bhi[i] >= idim ||
+    if (blo[i] < 1 || blo[i] > idim || bhi[i] < 1 || bhi[i] > idim ||
         blo[i] > bhi[i])
       pnga_error("Invalid patch index on distributed GA",0);
   }
-- 
2.43.0


From e78ed8675511c82ef7fe2973eb02ba6f23b46464 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 41/48] fix: changing the memory limit a second time was
 relative to the first limit

The stored limit was not updated, so every change after the first added
the difference to the original limit again.
---
 global/src/base.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/global/src/base.c b/global/src/base.c
index 6e0252b..685f6ac 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -644,10 +644,11 @@ void pnga_set_memory_limit(Integer mem_limit)
   if(GA_memory_limited){
 
     /* if we had the limit set we need to adjust the amount available */
-    if (mem_limit>=0)
+    if (mem_limit>=0) {
       /* adjust the current value by diff between old and new limit */
       GA_total_memory += (mem_limit - GA_memory_limit);     
-    else{
+      GA_memory_limit = mem_limit;
+    } else{
 
       /* negative values reset limit to "unlimited" */
       GA_memory_limited =  0;     
-- 
2.43.0


From f98277ea895bd9e319cb1bc6f85cc2ab71f32566 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:27:22 +0000
Subject: [PATCH 42/48] fix: refusing an overlay released memory of an earlier
 array

The handle still had the pointers of the array that used it before.
---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index 685f6ac..f748ec1 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -3082,6 +3082,8 @@ logical pnga_overlay(Integer g_a, Integer g_parent)
     for (i=0; i<grp_nproc; i++) {
       GA[ga_handle].ptr[i] = GA[g_p].ptr[i];
     }
+  } else {
+    GA[ga_handle].ptr[grp_me]=NULL;
   }
 
   if (GA[ga_handle].distr_type == REGULAR) {
-- 
2.43.0


From 2fcaf761749a4c2c13b17c82a577d5a0703d5aaa Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:28:32 +0000
Subject: [PATCH 43/48] fix: unset_property released memory that other
 processors were still reading

There was no synchronization between copying a read_only array and freeing
its memory.
---
 global/src/base.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/global/src/base.c b/global/src/base.c
index f748ec1..634341b 100644
--- a/global/src/base.c
+++ b/global/src/base.c
@@ -2314,6 +2314,8 @@ void pnga_unset_property(Integer g_a) {
       pnga_access_ptr(g_tmp,lo,hi,&ptr,ld);
       pnga_get(g_a,lo,hi,ptr,ld);
     }
+    /* other processors may still read the memory that is released next */
+    pnga_pgroup_sync(GA[ga_handle].old_handle);
 
     /* Get rid of current memory allocation */
 #ifndef AVOID_MA_STORAGE
-- 
2.43.0


From 84769678b081358843096daf1dfe94e5d8f38678 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:46:24 +0000
Subject: [PATCH 44/48] fix: MA stack and heap inquiries wrapped around when
 the other side had crossed the partition

---
 ma/ma.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 03f214e..bbc3d38 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2807,7 +2807,7 @@ public Integer MA_inquire_heap_check_stack(Integer datatype)
 
     /* try space between heap and partition or heap and stack */
     gap_length = min((size_t)(ma_partition - ma_hp), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    if (ma_partition > ma_hp && gap_length > 0)
         nelem_gap = ma_nelem(ma_hp, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -2946,7 +2946,7 @@ public Integer MA_inquire_stack(Integer datatype)
     /* try space between partition and stack */
     gap_length = (size_t)(ma_sp - ma_partition);
     /*if (ma_sp > ma_partition)*/
-    if (gap_length > 0)
+    if (ma_sp > ma_partition)
         nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
@@ -3013,7 +3013,7 @@ public Integer MA_inquire_stack_check_heap(Integer datatype)
 
     /* try space between partition and stack or heap and stack */
     gap_length = min((size_t)(ma_sp - ma_partition), (size_t)(ma_sp - ma_hp));
-    if (gap_length > 0)
+    if (ma_sp > ma_partition && gap_length > 0)
         nelem_gap = ma_nelem(ma_partition, (ulongi)gap_length, datatype);
     else
         nelem_gap = 0;
-- 
2.43.0


From d5b568f955cd0340ded9993125deb719382990c9 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 45/48] fix: MA accepted requests whose size in bytes overflows

---
 ma/ma.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/ma/ma.c b/ma/ma.c
index bbc3d38..0904d80 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2003,6 +2003,16 @@ public Boolean MA_allocate_heap(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* a request beyond the segment would overflow the size computation */
+    if (nelem > (Integer)((ma_eos - ma_segment) / ma_sizeof[datatype]))
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (long)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_allocate_heap", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
@@ -3298,6 +3308,16 @@ public Boolean MA_push_stack(
     /* convert datatype to internal (index-suitable) value */
     datatype = mt_import(datatype);
 
+    /* a request beyond the segment would overflow the size computation */
+    if (nelem > (Integer)((ma_eos - ma_segment) / ma_sizeof[datatype]))
+    {
+        (void)sprintf(ma_ebuf,
+            "block '%s', not enough space to allocate %ld elements",
+            name, (long)nelem);
+        ma_error(EL_Nonfatal, ET_External, "MA_push_stack", ma_ebuf);
+        return MA_FALSE;
+    }
+
     /*
      * attempt to allocate space
      */
-- 
2.43.0


From 583e307017ee1809644bd23df31d7c6499243972 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 01:48:02 +0000
Subject: [PATCH 46/48] fix: MA_free_heap_piece cut a block too short after the
 alignment was changed

---
 ma/ma.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ma/ma.c b/ma/ma.c
index 0904d80..3626a6b 100644
--- a/ma/ma.c
+++ b/ma/ma.c
@@ -2208,7 +2208,6 @@ public Boolean MA_free_heap_piece(
     AD        *ad;        /* AD for memhandle */
     AD        *ad_reclaim;    /* AD for data returned */
     AR        ar;        /* AR for data kept */
-    Pointer    client_space;    /* location of client_space */
     ulongi    nbytes;        /* length of block for data kept */
 
 #ifdef STATS
@@ -2247,8 +2246,11 @@ public Boolean MA_free_heap_piece(
     ar.datatype = ad->datatype;
     ar.nelem = ad->nelem - nelem;
 
-    /* perform trial allocation to determine size */
-    balloc_after(&ar, (Pointer)ad, &client_space, &nbytes);
+    /* determine size; the client space stays where it is, even if a
+       different alignment is requested now than when it was allocated */
+    nbytes = (ulongi)mai_round((size_t)((ad->client_space - (Pointer)ad)
+        + ar.nelem * ma_sizeof[ar.datatype] + sizeof(Guard)),
+        (ulongi)ALIGNMENT);
 
     if (nbytes < ad->nbytes)
     {
-- 
2.43.0


From 92dd3ff91d1fe58ce2ddce1efda0dccf19b4ff39 Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 03:19:38 +0000
Subject: [PATCH 47/48] fix: describe strided data with explicit strides in
 comex MPI datatypes

strided_to_subarray_dtype built an MPI subarray, which can express only
strides that are multiples of each other and at most 7 dimensions.
Strided transfers with skips that take the datatype path moved the wrong
elements.
---
 comex/src-mpi-pr/comex.c | 69 +++++++---------------------------------
 comex/src-mpi3/comex.c   | 60 +++++++++-------------------------
 2 files changed, 27 insertions(+), 102 deletions(-)

diff --git a/comex/src-mpi-pr/comex.c b/comex/src-mpi-pr/comex.c
index 5497f9a..42f5644 100644
--- a/comex/src-mpi-pr/comex.c
+++ b/comex/src-mpi-pr/comex.c
@@ -7492,67 +7492,22 @@ STATIC void translate_mpi_error(int ierr, const char* location)
  */
 STATIC void strided_to_subarray_dtype(int *stride_array, int *count, int levels, MPI_Datatype base_type, MPI_Datatype *type)
 {
-    int ndims = levels+1;
     int i = 0;
     int ierr = 0;
-    int array_of_sizes[7];
-    int array_of_starts[7];
-    int array_of_subsizes[7];
-    int stride = 0;
+    MPI_Datatype inner;
 
-    ierr = MPI_Type_size(base_type,&stride);
-    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-
-    /* the pointer to the local buffer points to the first data element
-     * in data exchange, not the origin of the local array, so all starts
-     * should be zero */
+    /* the strides need not be multiples of each other (strided access may
+     * skip elements in any dimension), so every level is a vector of the
+     * level below it with an explicit stride in bytes */
+    ierr = MPI_Type_contiguous(count[0], base_type, type);
+    translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
     for (i=0; i<levels; i++) {
-        array_of_sizes[i] = stride_array[i]/stride;
-        array_of_starts[i] = 0;
-        array_of_subsizes[i] = count[i];
-        if (array_of_sizes[i] < array_of_subsizes[i]) {
-            fprintf(stderr, "p[%d] ERROR [strided_to_subarray_dtype]\n"
-                    "stride: %d\n"
-                    "stride_array[%d]: %d\n"
-                    "array_of_sizes[%d]: %d\n"
-                    "array_of_subsizes[%d]: %d\n",
-                    g_state.rank,
-                    stride,
-                    i,stride_array[i],
-                    i,array_of_sizes[i],
-                    i,array_of_subsizes[i]);
-        }
-        stride = stride_array[i];
-    }
-    array_of_sizes[levels] = count[levels];
-    array_of_starts[levels] = 0;
-    array_of_subsizes[levels] = count[levels];
-#if DEBUG
-    for (i=0; i<ndims; i++) {
-        fprintf(stderr, "p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-                g_state.rank,
-                ndims,
-                i,array_of_sizes[i],
-                i,array_of_subsizes[i],
-                i,array_of_starts[i]);
-    }
-#endif
-
-    ierr = MPI_Type_create_subarray(ndims, array_of_sizes,
-            array_of_subsizes, array_of_starts, MPI_ORDER_FORTRAN,
-            base_type, type);
-    if (MPI_SUCCESS != ierr) {
-        fprintf(stderr, "p[%d] Error forming MPI_Datatype for one-sided strided operation."
-                " Check that stride dimensions are compatible with local block"
-                " dimensions\n",g_state.rank);
-        for (i=0; i<levels; i++) {
-            fprintf(stderr, "p[%d] count[%d]: %d stride[%d]: %d\n",
-                    g_state.rank,
-                    i,count[i],
-                    i,stride_array[i]);
-        }
-        fprintf(stderr, "p[%d] count[%d]: %d\n",g_state.rank,i,count[i]);
-        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+        inner = *type;
+        ierr = MPI_Type_create_hvector(count[i+1], 1,
+                (MPI_Aint)stride_array[i], inner, type);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+        ierr = MPI_Type_free(&inner);
+        translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
     }
 }
 STATIC void check_devshm(int fd, size_t size){
diff --git a/comex/src-mpi3/comex.c b/comex/src-mpi3/comex.c
index 75b4a53..fe76042 100644
--- a/comex/src-mpi3/comex.c
+++ b/comex/src-mpi3/comex.c
@@ -678,52 +678,22 @@ int comex_acc(
 void strided_to_subarray_dtype(int *stride_array, int *count, int levels,
     MPI_Datatype base_type, MPI_Datatype *type)
 {
-   int ndims, i, ierr;
-   int array_of_sizes[7];
-   int array_of_starts[7];
-   int array_of_subsizes[7];
-   int stride;
-   ierr = MPI_Type_size(base_type,&stride);
-   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_size");
-   ndims = levels+1;
-   /* the pointer to the local buffer points to the first data element in
-      data exchange, not the origin of the local array, so all starts should
-      be zero */
+   int i = 0;
+   int ierr = 0;
+   MPI_Datatype inner;
+
+   /* the strides need not be multiples of each other (strided access may
+    * skip elements in any dimension), so every level is a vector of the
+    * level below it with an explicit stride in bytes */
+   ierr = MPI_Type_contiguous(count[0], base_type, type);
+   translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_contiguous");
    for (i=0; i<levels; i++) {
-     array_of_sizes[i] = stride_array[i]/stride;
-     array_of_starts[i] = 0;
-     array_of_subsizes[i] = count[i];
-     if (array_of_sizes[i] < array_of_subsizes[i]) {
-       printf("p[%d] ERROR [strided_to_subarray_dtype]\n"
-              "array_of_sizes[%d]: %d\n"
-              "array_of_subsizes[%d]: %d\n",l_state.rank,
-              i,array_of_sizes[i],i,array_of_subsizes[i]);
-     }
-     stride = stride_array[i];
-   }
-   array_of_sizes[levels] = count[levels];
-   array_of_starts[levels] = 0;
-   array_of_subsizes[levels] = count[levels];
-#if 0
-     for (i=0; i<ndims; i++) {
-       printf("p[%d] ndims: %d sizes[%d]: %d subsizes[%d]: %d starts[%d]: %d\n",
-           l_state.rank,ndims,i,array_of_sizes[i],i,array_of_subsizes[i],
-           i,array_of_starts[i]);
-     }
-#endif
-   
-   ierr = MPI_Type_create_subarray(ndims, array_of_sizes,array_of_subsizes,
-       array_of_starts,MPI_ORDER_FORTRAN,base_type,type);
-   if (ierr != 0) {
-     printf("p[%d] Error forming MPI_Datatype for one-sided strided operation."
-       " Check that stride dimensions are compatible with local block"
-       " dimensions\n",l_state.rank);
-     for (i=0; i<levels; i++) {
-       printf("p[%d] count[%d]: %d stride[%d]: %d\n",l_state.rank,i,count[i],
-           i,stride_array[i]);
-     }
-     printf("p[%d] count[%d]: %d\n",l_state.rank,i,count[i]);
-     translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_subarray");
+      inner = *type;
+      ierr = MPI_Type_create_hvector(count[i+1], 1,
+            (MPI_Aint)stride_array[i], inner, type);
+      translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_create_hvector");
+      ierr = MPI_Type_free(&inner);
+      translate_mpi_error(ierr,"strided_to_subarray_dtype:MPI_Type_free");
    }
 }
 
-- 
2.43.0


From 7c89350d9b0b6759897eb42cff1564b7652e536c Mon Sep 17 00:00:00 2001
From: verif <a@b>
Date: Fri, 20 Nov 2026 05:40:37 +0000
Subject: [PATCH 48/48] fix: strided transfers translate the owner to a process
 id only once

pnga_strided_put, pnga_strided_get and pnga_strided_acc applied the
inverse map of the array's process group to the process returned by
gai_iterator_next, which has already been translated. For an array on a
group whose ranks are not the first ranks of the world in order the
transfer went to a process that does not own the data.
---
 global/src/onesided.c | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/global/src/onesided.c b/global/src/onesided.c
index 9a4e5be..b402b30 100644
--- a/global/src/onesided.c
+++ b/global/src/onesided.c
@@ -4255,7 +4255,7 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
      buf[]:  Local buffer that patch will be copied from
      ld[]:   ndim-1 physical dimensions of local buffer */
   Integer p, np=0, handle = GA_OFFSET + g_a;
-  Integer idx, size, nstride, p_handle, nproc;
+  Integer idx, size, nstride, nproc;
   Integer ldrem[MAXDIM];
   Integer idx_buf, *blo, *bhi;
   Integer plo[MAXDIM],phi[MAXDIM];
@@ -4267,7 +4267,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   nproc = pnga_nnodes();
-  p_handle = GA[handle].p_handle;
 
   /* check values of skips to make sure they are legitimate */
   for (i = 0; i<ndim; i++) {
@@ -4309,10 +4308,6 @@ void pnga_strided_put(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_PutS(pbuf, stride_loc, prem, stride_rem, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4335,7 +4330,7 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
      buf[]:  Local buffer that patch will be copied from
      ld[]:   ndim-1 physical dimensions of local buffer */
   Integer p, np=0, handle = GA_OFFSET + g_a;
-  Integer idx, size, nstride, p_handle, nproc;
+  Integer idx, size, nstride, nproc;
   int i, proc, ndim;
   Integer ldrem[MAXDIM];
   Integer idx_buf, *blo, *bhi;
@@ -4347,7 +4342,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   size = GA[handle].elemsize;
   ndim = GA[handle].ndim;
   nproc = pnga_nnodes();
-  p_handle = GA[handle].p_handle;
 
   /* check values of skips to make sure they are legitimate */
   for (i = 0; i<ndim; i++) {
@@ -4389,10 +4383,6 @@ void pnga_strided_get(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_GetS(prem, stride_rem, pbuf, stride_loc, count, nstride-1, proc);
   }
   gai_iterator_destroy(&it_hdl);
@@ -4418,7 +4408,7 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
      ld[]:   ndim-1 physical dimensions of local buffer
      alpha:  muliplicative scale factor */
   Integer p, np=0, handle = GA_OFFSET + g_a;
-  Integer idx, size, nstride, type, p_handle, nproc;
+  Integer idx, size, nstride, type, nproc;
   int i, optype=-1, proc, ndim;
   Integer ldrem[MAXDIM];
   Integer idx_buf, *blo, *bhi;
@@ -4431,7 +4421,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
   ndim = GA[handle].ndim;
   type = GA[handle].type;
   nproc = pnga_nnodes();
-  p_handle = GA[handle].p_handle;
 
   if (type == C_DBL) optype = ARMCI_ACC_DBL;
   else if (type == C_FLOAT) optype = ARMCI_ACC_FLT;
@@ -4481,10 +4470,6 @@ void pnga_strided_acc(Integer g_a, Integer *lo, Integer *hi, Integer *skip,
       gai_SetStrideWithSkip(ndim, size, ld, ldrem, stride_rem, stride_loc,
           skip);
 
-      /* BJP */
-      if (p_handle != -1) {
-        proc = PGRP_LIST[p_handle].inv_map_proc_list[proc];
-      }
       ARMCI_AccS(optype, alpha, pbuf, stride_loc, prem, stride_rem, count,
           nstride-1, proc);
   }
-- 
2.43.0

