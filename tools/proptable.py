P = [
 dict(id='C01', title='Every element has exactly one owner and ownership queries agree',
  statement='For every array shape and every data distribution, each valid subscript belongs to exactly one block, the block the library names as its owner really contains it, and the owner is a valid block number.',
  text='all array dimensions 1..7, all extents, all regular, irregular, block-cyclic, process-grid and tiled layouts, all subscripts',
  why='tests create a handful of shapes on a few processes; ownership must be a partition for every extent, block map and subscript',
  files=['global/src/base.c', 'global/src/base.h'],
  mech=[('owner lookup', 'global/src/base.c pnga_locate'), ('block bounds', 'global/src/base.c pnga_distribution, base.h ga_ownsM')],
  level='other', note='ownership, block bounds, origin and overlap, process topology and the number of pieces: all obligations discharged without bounds per number of dimensions and layout; the content of the listing of pieces: bounded random search'),
 dict(id='C03', title='One-sided put, get and accumulate touch exactly their patch',
  statement='A put, get or accumulate of any rectangular patch (contiguous or with a stride in each dimension, blocking or non-blocking) of an array of any shape, element type and data distribution moves exactly the elements of the patch between the array and the local buffer positions given by the leading dimensions: after a synchronisation every process sees exactly the values stored or accumulated, concurrent accumulates all take effect, elements and buffer bytes outside the patch are unchanged.',
  over=['inputs', 'configurations', 'schedules'],
  text='all shapes, layouts, process counts, patches, strides, leading dimensions, element types and interleavings',
  why='tests use a few shapes on a fixed number of processes; the composition of decomposition, addressing, packing and communication must be exact for every patch, layout and interleaving',
  files=['global/src/onesided.c', 'global/src/iterator.c', 'global/src/base.c', 'comex/src-armci/armci.c', 'comex/src-mpi/comex.c', 'comex/src-mpi-pr/comex.c'],
  mech=[('patch transfer', 'global/src/onesided.c ngai_put_common, ngai_get_common, ngai_acc_common'), ('patch decomposition', 'global/src/iterator.c gai_iterator_next'), ('message protocol', 'comex/src-mpi/comex.c, comex/src-mpi-pr/comex.c')],
  level='other', technique='contract-based deductive verification of the transfer set-up (every piece of a put, get or accumulate handed to the transport exactly once, with its places, strides and counts), plus a bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='proved per dimension count 1 to 3: the transfers against the contracts of the iterator and of the strided transport, and the iterator on block distributions against the contract of the patch decomposition; bounded: random arrays, patches and schedules on 1 to 4 simulated ranks, over the two-sided and the progress-rank port'),
 dict(id='C04', title='Strided sections are transported byte for byte',
  statement='Packing a strided section into a contiguous buffer and unpacking it again moves every byte of the section to its own position and changes nothing else, for every number of stride levels, count and stride.',
  text='all stride levels, all block counts, all strides for which rows do not overlap',
  why='tests move a few regular sections; the walk over the section must be right for every count and stride combination',
  files=['comex/src-mpi-pr/comex.c'],
  mech=[('pack/unpack odometer', 'comex/src-mpi-pr/comex.c pack, unpack')],
  note='unbounded in counts and strides for each number of stride levels up to 3'),
 dict(id='C05', title='Accumulate computes dst += scale*src element by element',
  statement='For every element type an accumulate adds scale times the source element to the destination element, element by element and exactly once, leaves the source alone and touches nothing beyond the section; complex numbers use complex multiplication.',
  text='all lengths, all values, every supported element type',
  why='tests use a few lengths and scale factors, mostly with real types',
  files=['comex/src-common/acc.h'],
  mech=[('element kernels', 'comex/src-common/acc.h _acc, _scale')],
  note='unbounded in the length; floating point operations are opaque functions'),
 dict(id='C02', title='Direct access reaches exactly the elements a process owns',
  statement='For every array and distribution, the address and leading dimensions that direct access returns for a process, a block, a grid block or a sub-patch of it designate exactly the elements the ownership queries report for it: reading through the address gives the array elements, writing changes exactly those elements, and all blocks together give every element once.',
  over=['inputs', 'configurations'],
  text='all shapes, layouts, process counts, blocks, sub-patches, ghost widths and element types',
  why='tests access a few regular blocks; the address computation must agree with the ownership map for every layout and block',
  files=['global/src/base.c', 'global/src/onesided.c', 'global/src/ghosts.c'],
  mech=[('block addresses', 'global/src/onesided.c pnga_access_ptr, pnga_access_block_ptr, pnga_access_block_grid_ptr, pnga_access_block_segment_ptr'), ('element location', 'global/src/base.h gam_Location')],
  level='other', technique='contract-based deductive verification of the address computation on block distributions, plus a bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='proved for 1 to 3 dimensions: pnga_access_ptr against the ownership contract; bounded: random arrays on 1 to 5 simulated ranks'),
 dict(id='C06', title='Element lists are scattered, gathered and accumulated exactly',
  statement='Scatter, gather and scatter-accumulate with any list of subscripts (in any order, with repetitions for gather and accumulate, of any length, in either subscript layout) read or change exactly the listed elements with the value at the same list position; values and subscripts of the caller keep their contents and no other element changes.',
  over=['inputs', 'configurations', 'schedules'],
  text='all lists, layouts, element types, process counts and interleavings',
  why='tests use regular lists on regular arrays; the grouping of the list by owner must keep every value with its subscript for all lists and layouts',
  files=['global/src/onesided.c', 'global/src/hsort.scat.c'],
  mech=[('grouping by owner', 'global/src/onesided.c gai_gatscat_new, pnga_scatter2d, pnga_gather2d'), ('sorting', 'global/src/hsort.scat.c gai_hsort')],
  level='other', technique='bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='bounded: random lists on 1 to 5 simulated ranks, over the two-sided and the progress-rank port'),
 dict(id='C07', title='Whole-array and patch algebra equals the elementwise definition',
  statement='Fill, zero, scale, add, add-constant, abs, recip, multiply, divide, maximum, minimum and copy, on whole arrays and on patches, give in every element of the patch exactly the result of the scalar operation on the corresponding operand elements, also when the result array is an operand, when operands have different distributions or the patches different shapes, and leave every element outside the patch unchanged.',
  over=['inputs', 'configurations'],
  text='all shapes, distributions, patches, element types, scalars and aliasing of operands',
  why='tests check a few patches of a few shapes; the mapping of patches to local blocks and the walk inside a block must be exact for all of them',
  files=['global/src/elem_alg.c', 'global/src/global.npatch.c', 'global/src/global.nalg.c'],
  mech=[('patch kernels', 'global/src/global.npatch.c snga_set_patch_value, snga_scale_patch_value, snga_add_patch_values'), ('element kernels and the walk', 'global/src/elem_alg.c ngai_do_oper_elem, ngai_do_elem2_oper, do_multiply, do_maximum, do_minimum, do_abs, do_add_const')],
  level='other', note='kernels and walks proved without bounds for 1 to 3 dimensions; the collective operations around them by bounded execution'),
 dict(id='C08', title='Periodic patches wrap around exactly',
  statement='Put, get and accumulate of a patch whose bounds may lie outside the array act on the array continued periodically in every dimension: the element at subscript i of the patch is the array element at i modulo the extent, every buffer element is transferred, and no other array element or buffer byte changes.',
  over=['inputs', 'configurations'],
  text='all extents, patches (also several periods away), leading dimensions, element types and distributions',
  why='tests use a patch sticking out on one side of one array',
  files=['global/src/global.periodic.c'],
  mech=[('splitting into ranges', 'global/src/global.periodic.c ngai_peri_get_range_')],
  level='other', technique='contract-based deductive verification of the splitting of a periodic request (ranges tile the request, boxes transferred once each at their buffer places), plus a bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='proved: the pieces of every dimension tile the request and stay inside the array (1 dim), and every box of pieces is handed to put, get or accumulate once with the right place in the buffer (1 to 3 dims); bounded: random arrays and patches on 1 to 5 simulated ranks'),
 dict(id='C12', title='The C interface means the same array elements as its row-major, zero-based arguments say',
  statement='Every C entry point addresses exactly the elements its row-major, zero-based arguments denote: index bounds, extents, widths, leading dimensions, block maps and subscript lists reach the column-major, one-based core with the order of the dimensions reversed and indices counted from one, results come back converted the opposite way, scalars, handles and buffers are passed on unaltered, 32 and 64 bit variants agree without loss of range, and the arrays given by the caller are not modified.',
  over=['inputs'],
  text='all index values, extents and list lengths within the argument types, 1..7 dimensions, 32 and 64 bit variants, 373 C entry points',
  why='tests use square shapes and symmetric patches where a forgotten reversal, offset or truncation is invisible, and cover a fraction of the entry points',
  files=['global/src/capi.c'],
  mech=[('index conversion', 'global/src/capi.c COPYINDEX_C2F, COPYC2F, COPYINDEX_F2C, COPYF2C and every NGA_/GA_ wrapper'), ('distribution maps', 'global/src/capi.c copy_map, copy_map64')],
  note='every obligation discharged for 1..7 dimensions; each wrapper is checked against the contract of the core routine it calls'),
 dict(id='C13', title='Ghost cells hold the periodic neighbours after an update',
  statement='After any of the ghost update operations (all variants, also of single directions) every ghost cell of every process holds the value of the array element at its periodically continued subscript, the elements the processes own are unchanged, and reads and writes through the ghost blocks use exactly the cells of the ghost widths.',
  over=['inputs', 'configurations', 'schedules'],
  text='all shapes, distributions, widths (also zero and different per dimension), element types, directions and interleavings',
  why='tests use one width and one shape; corners, unequal widths and narrow blocks are where the exchange goes wrong',
  files=['global/src/ghosts.c'],
  mech=[('update algorithms', 'global/src/ghosts.c pnga_update1_ghosts, pnga_update2_ghosts, pnga_update3_ghosts, pnga_update4_ghosts, pnga_update6_ghosts, pnga_update7_ghosts, pnga_update_ghost_dir')],
  level='other', technique='bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='bounded: random arrays on 1 to 5 simulated ranks; update5/update55 need an ARMCI call this port does not support'),
 dict(id='C14', title='Read-and-increment is atomic and hands out every value once',
  statement='Concurrent read-and-increment operations on the same or different elements, in any interleaving with other processes, return values as if they were executed one after another: no increment is lost, no value is handed out twice, and other elements are unchanged.',
  over=['inputs', 'schedules', 'configurations'],
  text='all interleavings, element types, increments and array layouts',
  why='tests cannot choose the interleaving',
  files=['global/src/onesided.c', 'comex/src-mpi/comex.c'],
  mech=[('fetch and add', 'global/src/onesided.c pnga_read_inc'), ('target side execution', 'comex/src-mpi/comex.c fetch-and-add request')],
  level='other', technique='contract-based deductive verification of the address, operation, owner and result of one read-and-increment, plus a bounded stand-in for atomicity: contracts executed on the real library under an in-process SPMD simulator (random schedules)',
  note='proved for 1 to 3 dimensions: pnga_read_inc against the contracts of ownership and ARMCI_Rmw; bounded: random schedules on 1 to 5 simulated ranks'),
 dict(id='C18', title='Reductions return the value defined by the elements',
  statement='For every array, distribution, process count and element type: the dot product of two conforming patches (optionally transposed) is the sum of the products of corresponding elements, select_elem returns the smallest or largest element (by modulus for complex arrays) together with a subscript where it is stored, norm1 and norm_infinity are the sum and the maximum of the absolute values, and a global operation (sum, product, min, max, absmin, absmax) and a broadcast give every process the combination of all contributions. All processes get the same result and the operands are unchanged.',
  over=['inputs', 'configurations', 'schedules'],
  text='all shapes, layouts, process counts, patches, element types and values without rounding',
  why='tests reduce a few regular arrays on a fixed number of processes; empty processes, several blocks per process, ghost cells and odd shapes are not sampled',
  files=['global/src/select.c', 'global/src/matrix.c', 'global/src/global.npatch.c', 'global/src/global.nalg.c', 'comex/src-armci/message.c'],
  mech=[('selection', 'global/src/select.c pnga_select_elem'), ('dot product', 'global/src/global.npatch.c pnga_dot_patch'), ('norms', 'global/src/matrix.c pnga_norm1, pnga_norm_infinity'), ('group reduction', 'global/src/base.c pnga_gop, comex/src-armci/message.c')],
  level='other', technique='contract proofs of the selection kernels (gvc) and, bounded, contracts executed on the real library under an in-process SPMD simulator',
  note='selection and comparison kernels proved for all lengths; the distributed operations are bounded: random arrays on 1 to 5 simulated ranks'),
 dict(id='C19', title='Matrix utilities follow their matrix definitions',
  statement='Diagonal operations (shift, set, add, get, zero) touch exactly the diagonal elements, row and column scaling multiply every element by the factor of its row or column (as complex numbers for complex types), the median takes the middle of the three corresponding elements, transposition and symmetrization give a(j,i) and the mean of a(i,j) and a(j,i), and a product of two patches (optionally transposed, also planes of higher dimensional arrays) is alpha*A*B + beta*C; everything else keeps its value.',
  over=['inputs', 'configurations'],
  text='all shapes, layouts (regular, irregular, block-cyclic, ghost cells), process counts, patches, element types and scalars',
  why='tests use square regular matrices; blocks that miss the diagonal, ghost cells, block-cyclic layouts and odd patches are not sampled',
  files=['global/src/matrix.c', 'global/src/matmul.c', 'global/src/ga_symmetr.c', 'global/src/global.nalg.c', 'global/src/ga_trace.c'],
  mech=[('diagonals and scaling', 'global/src/matrix.c sgai_shift_diagonal_block, sgai_set_diagonal_block, sgai_add_diagonal_block, sgai_get_diagonal_block, sgai_zero_diagonal_block, sgai_scale_row_values, sgai_scale_col_values'), ('median', 'global/src/matrix.c sgai_median_patch_values'), ('multiplication', 'global/src/matmul.c pnga_matmul, pnga_matmul_patch, pnga_matmul_basic')],
  level='other', technique='contract proofs of the matrix kernels (gvc) and, bounded, contracts executed on the real library under an in-process SPMD simulator',
  note='diagonal, scaling and median kernels proved for all sizes; the distributed operations are bounded: random arrays on 1 to 5 simulated ranks; the local GEMM is a trusted reference implementation'),
dict(id='C10', title='The local memory allocator hands out disjoint, intact blocks',
  statement='For every history of initializing the allocator, allocating and freeing heap blocks (whole or in part), pushing, popping and cutting the stack, changing the alignment and inquiring: every block handed out lies inside the segment, is aligned for its type and as requested, overlaps no live block, keeps its contents and its handle until it is released, base plus index is its address, requests that do not fit (including those whose size overflows) and releases in the wrong order or of the wrong kind are refused without effect, the number of elements reported to fit can indeed be allocated and never exceeds the segment, the self check passes, and after releasing everything all memory is free again.',
  over=['inputs', 'histories'],
  text='all histories of allocator operations, types, element counts and alignments',
  why='splitting, merging and truncating free blocks and the interplay of heap, stack and alignment only matter in long mixed histories; the tests allocate a few blocks',
  files=['ma/ma.c', 'ma/table.c'],
  mech=[('placement', 'ma/ma.c balloc_after, balloc_before'), ('free list', 'ma/ma.c block_free_heap, block_split, list_coalesce, list_insert_ordered'), ('inquiries', 'ma/ma.c ma_nelem, ma_max_heap_frag_nelem, MA_inquire functions'), ('handles', 'ma/table.c ma_table_allocate')],
  level='other', technique='bounded stand-in: contracts executed natively on the real allocator over random histories',
  note='bounded: random histories of at most 120 operations'),
dict(id='C11', title='Process groups are consistent communication and data contexts',
  statement='For every tree of process groups made by creating, splitting, colour splitting, duplicating, taking oneself and destroying: each group has exactly the listed members in the order of their numbers in the parent, group ranks translate to those processes and back, live groups have distinct handles and a destroyed handle is reported as gone, count and number of processes follow the default group, reductions, broadcasts and synchronization on a group involve exactly its members, and an array created on a group (by handle or as the default group) is distributed over the group ranks and can be written, accumulated, read, duplicated, copied, filled and destroyed by its members with the same meaning as on all processes.',
  over=['inputs', 'configurations', 'schedules', 'histories'],
  text='all group trees, member lists, colours, orders of creation and destruction, and process counts',
  why='numbers of a process in a group, its parent, the default group and the world coincide in the simple groups tests use and differ in nested, permuted, duplicated and reused ones',
  files=['global/src/base.c', 'comex/src-mpi/groups.c', 'comex/src-armci/groups.c'],
  mech=[('group tables', 'global/src/base.c pnga_pgroup_create, pnga_pgroup_split, pnga_pgroup_split_irreg, pnga_pgroup_duplicate'), ('translation', 'global/src/base.c pnga_pgroup_nodeid, pnga_pgroup_absolute_id'), ('communicators', 'comex/src-mpi/groups.c comex_group_create')],
  level='other', technique='contract-based deductive verification of the group tables, duplicates and splits, plus a bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='proved for any number of processes: tables of a new group (member lists of up to 3 entries), members of duplicates, of splits and (soundness only) of colour splits; bounded: random group trees, operations and schedules on 1 to 6 simulated ranks'),
  dict(id='C15', title='Array handles live their life cycle without disturbing each other',
  statement='For every history of creating, allocating, duplicating, overlaying, deallocating and destroying arrays, setting and unsetting the read_only and read_cache properties, registering user types and limiting memory: a live handle is valid and a destroyed one is not, an array keeps its values, type, name, shape and distribution until an operation on that array changes them, a read through any property returns the values stored before, an overlay sees exactly the memory of its parent, an array that does not fit is refused by all processes, and the account of used memory is the sum over the live arrays and returns to its value when they are destroyed.',
  over=['inputs', 'configurations', 'histories', 'schedules'],
  text='all histories of life cycle operations over several arrays and all process counts',
  why='handles, type numbers, properties and memory are recycled; faults need a particular order of creating, changing and destroying several arrays',
  files=['global/src/base.c', 'global/src/onesided.c', 'global/src/global.util.c'],
  mech=[('allocation', 'global/src/base.c pnga_allocate, pnga_deallocate, pnga_destroy, pnga_duplicate, pnga_overlay'), ('properties', 'global/src/base.c pnga_set_property, pnga_unset_property'), ('cached reads', 'global/src/onesided.c ngai_get_common, gai_mem_copy'), ('memory account', 'global/src/base.c pnga_set_memory_limit, pnga_inquire_memory')],
  level='other', technique='bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='bounded: random histories and schedules on 1 to 4 simulated ranks, five slots'),
  dict(id='C16', title='Mirrored arrays are one copy per node, and merging sums the copies',
  statement='For every grouping of the processes into nodes and every array on the mirror group: each node holds its own complete copy, puts, gets, accumulates, fills and scalings act on the copy of the calling node only, merging replaces every copy by the elementwise sum of all copies, and merging a patch into a distributed array stores the elementwise sum of the copies in exactly that patch and changes nothing else.',
  over=['inputs', 'configurations', 'schedules'],
  text='all node sizes, shapes, distributions, patches and schedules',
  why='a single machine is a single node, so the tests never run with more than one copy',
  files=['global/src/base.c', 'global/src/onesided.c', 'global/src/global.util.c'],
  mech=[('merging', 'global/src/base.c pnga_merge_mirrored, pnga_merge_distr_patch'), ('node local access', 'global/src/onesided.c'), ('node tables', 'comex/src-armci/message.c armci_domain functions')],
  level='other', technique='bounded stand-in: contracts executed on the real library under an in-process SPMD simulator with simulated nodes (random search)',
  note='bounded: random shapes, node sizes and schedules on 1 to 6 simulated ranks'),
  dict(id='C20', title='Enumeration, segmented scans and packing follow their sequential definitions',
  statement='For every one dimensional array, mask and range: enumeration stores start, start+inc, ... in order, a segmented scan (copy or sum, inclusive or exclusive) gives every element the value defined by the mask bits at or before it, packing moves the masked elements in order to the front of the destination and reports their number, unpacking is its inverse, and binning places every element once into its bin, with all other elements unchanged, independently of how the arrays are distributed.',
  over=['inputs', 'configurations', 'schedules'],
  text='all lengths, masks, ranges, distributions and process counts',
  why='the answer of a process depends on what all processes before it contributed; tests use a few regular masks, and the faults sit at process boundaries, empty processes and empty segments',
  files=['global/src/sparse.c'],
  mech=[('enumeration', 'global/src/sparse.c pnga_patch_enum'), ('scans', 'global/src/sparse.c gai_scan_copy_add'), ('packing', 'global/src/sparse.c gai_pack_unpack'), ('binning', 'global/src/sparse.c pnga_bin_index, pnga_bin_sorter')],
  level='other', technique='contract-based deductive verification of enumeration (pnga_patch_enum), plus a bounded stand-in: contracts executed on the real library under an in-process SPMD simulator (random search)',
  note='proved: enumeration writes start + (index - lo)*inc into exactly the owned elements of the range, for every length and range, 4 types; bounded: random arrays, masks and schedules on 1 to 4 simulated ranks'),
]
NA = {}
P.sort(key=lambda p: p['id'])
