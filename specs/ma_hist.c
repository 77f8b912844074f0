/* C10: the local memory allocator over random histories.  Real code: ma/ma.c, ma/table.c */
#include <stdio.h>
#include "ma/error.c"
#include "ma/string-util.c"
#include "ma/table.c"
#include "ma/ma.c"
#undef min
#undef max
#include "vs.h"
#if !NOFORT
/* the Fortran side of the library announces the addresses and sizes of the Fortran types */
static long vsb_[7][4];
Integer ma_set_sizes_() { int i; static const int t[] = { MT_F_BYTE, MT_F_INT, MT_F_LOG, MT_F_REAL, MT_F_DBL, MT_F_SCPL, MT_F_DCPL }, z[] = { 1, 8, 8, 4, 8, 8, 16 }; for (i = 0; i < 7; i++) MAi_inform_base(t[i], (Pointer)vsb_[i], (Pointer)vsb_[i] + z[i]); return 1; }
#endif
#define NB 24
typedef struct { int live, heap, type; long n, bytes, seq; unsigned char *p; Integer h; unsigned char tag; } blk;
static blk B[NB]; static long seq_;
static const int T[] = { MT_CHAR, MT_INT, MT_LONGINT, MT_REAL, MT_DBL, MT_LDBL, MT_SCPL, MT_DCPL };
static const int Z[] = { sizeof(char), sizeof(int), sizeof(long), sizeof(float), sizeof(double), sizeof(MA_LongDouble), sizeof(MA_SingleComplex), sizeof(MA_DoubleComplex) };
static void contents(const char *what) { int i; long k; for (i = 0; i < NB; i++) if (B[i].live) for (k = 0; k < B[i].bytes; k++) ENSURE(B[i].p[k] == (unsigned char)(B[i].tag + k * 7), what); }
static void taken(int i, int heap, int t, long n, Integer h, long idx, int byindex) { /* the new block is usable and disjoint from all others */
  blk *b = &B[i]; void *p = 0; MA_AccessIndex ix = -1; int j; long k;
  ENSURE(MA_get_pointer(h, &p) == MA_TRUE && MA_get_index(h, &ix) == MA_TRUE, "an allocated block has a pointer and an index");
  ENSURE((char *)MA_get_mbase(T[t]) + (long)ix * Z[t] == (char *)p, "base plus index is the address of the block");
  if (byindex) ENSURE(idx == (long)ix, "the returned index is the index of the block");
  { Integer na; MA_get_numalign(&na); if (na > 0 && (long)p % (1L << na)) ENSURE(((long)p % (1L << na)) % Z[t] != 0, "blocks are aligned as requested when the type allows it"); }
  b->live = 1; b->heap = heap; b->type = t; b->n = n; b->bytes = n * Z[t]; b->p = p; b->h = h; b->seq = seq_++; b->tag = (unsigned char)(seq_ * 37);
  ENSURE((char *)p >= (char *)ma_segment && (char *)p + b->bytes <= (char *)ma_eos, "a block lies inside the memory of the allocator");
  for (j = 0; j < NB; j++) if (j != i && B[j].live) { ENSURE(B[j].h != h, "live blocks have different handles"); ENSURE(B[j].p + B[j].bytes <= b->p || b->p + b->bytes <= B[j].p, "live blocks do not overlap"); }
  for (k = 0; k < b->bytes; k++) b->p[k] = (unsigned char)(b->tag + k * 7);
}
static int top(void) { int i, t = -1; for (i = 0; i < NB; i++) if (B[i].live && !B[i].heap && (t < 0 || B[i].seq > B[t].seq)) t = i; return t; }
static void gone(int i) { void *p; B[i].live = 0; ENSURE(MA_get_pointer(B[i].h, &p) == MA_FALSE, "a released block has no pointer any more"); }
VS_ENTRY(vs_ma) {
  long steps = vs_long("steps", 1, VS_LIM(200, 120)), st, hp = vs_long("heap", 0, 3000), sk = vs_long("stack", 0, 3000); int ty = (int)vs_long("unit", 0, 7), i, k; unsigned long long x = (unsigned long long)vs_long("seed", 1, 1000000000);
#define R(n) (x = x * 6364136223846793005ull + 1442695040888963407ull, (long)((x >> 33) % (unsigned long)(n)))
  if (ma_segment) free(ma_segment);
  if (ma_table) free(ma_table);
  ma_table = NULL; ma_table_capacity = ma_table_entries = ma_table_next_slot = 0; ma_initialized = MA_FALSE; ma_numalign = 0; ma_auto_verify = MA_FALSE; memset(B, 0, sizeof B); seq_ = 0; memset(&ma_stats, 0, sizeof ma_stats);
  MA_set_error_print(getenv("VS_VERBOSE") ? MA_TRUE : MA_FALSE); MA_set_hard_fail(MA_FALSE);
  ENSURE(MA_initialized() == MA_FALSE, "not initialized at first");
  ENSURE(MA_init(T[ty], sk, hp) == MA_TRUE && MA_initialized() == MA_TRUE, "the allocator is initialized");
  { Integer h; if (vs_long("first", 0, 3) == 0) { int hh = (int)vs_long("firstheap", 0, 1); /* the promised room is there */
      ENSURE((hh ? MA_allocate_heap(T[ty], hp, "first", &h) : MA_push_stack(T[ty], sk, "first", &h)) == MA_TRUE, "a block of the size announced at initialization fits"); taken(0, hh, ty, hh ? hp : sk, h, 0, 0); } }
  for (st = 0; st < steps; st++) {
    long op = R(13), t = R(8), n = R(4) == 0 ? R(600) : R(40); Integer h = -1; MA_AccessIndex ix = -1; Boolean r; int f = -1;
    for (i = 0; i < NB; i++) if (!B[i].live) f = i;
    k = (int)R(NB); for (i = 0; i < NB && !B[k].live; i++) k = (k + 1) % NB;
    switch (op) {
    case 0: case 1: case 2: { int heap = op < 2 || R(3) == 0, byi = (int)R(2); long most; if (f < 0) break;
        most = heap ? MA_inquire_heap_no_partition(T[t]) : MA_inquire_avail(T[t]);
        if (R(6) == 0) n = most; else if (R(12) == 0) n = most + 1 + R(20); else if (R(30) == 0) n = (1L << (40 + R(23))) + R(50);
        if (heap) r = byi ? MA_alloc_get(T[t], n, "block", &h, &ix) : MA_allocate_heap(T[t], n, "a block with a rather long name that has to be cut somewhere", &h);
        else r = byi ? MA_push_get(T[t], n, "block", &h, &ix) : MA_push_stack(T[t], n, "b", &h);
        if (n <= most && n > 0) { if (heap) ENSURE(r == MA_TRUE, "as many elements as reported to fit can be allocated on the heap"); else ENSURE(r == MA_TRUE, "as many elements as reported to fit can be pushed on the stack"); }
        if (n > (long)(ma_eos - ma_segment)) ENSURE(r == MA_FALSE, "a block larger than the memory of the allocator is refused");
        if (r == MA_TRUE) taken(f, heap, (int)t, n, h, (long)ix, byi); break; }
    case 3: case 4: if (!B[k].live || !B[k].heap) { if (B[k].live) ENSURE(MA_free_heap(B[k].h) == MA_FALSE, "a stack block is not freed as a heap block"); break; }
      ENSURE(MA_free_heap(B[k].h) == MA_TRUE, "a heap block is freed"); gone(k); break;
    case 5: { long d, m; int d2 = 0; if (!B[k].live || !B[k].heap) break; d = R(B[k].n + 2); if (R(4) == 0) { d = 0; }
        ENSURE(MA_free_heap_piece(B[k].h, d) == MA_TRUE, "the end of a heap block is freed"); m = B[k].n - d; (void)d2; if (d >= B[k].n) { gone(k); break; } B[k].n = m; B[k].bytes = m * Z[B[k].type]; break; }
    case 6: case 7: i = top(); if (i < 0) break; if (R(4) == 0) { for (k = 0; k < NB; k++) if (k != i && B[k].live) { ENSURE(MA_pop_stack(B[k].h) == MA_FALSE, "only the top of the stack is popped"); break; } }
      ENSURE(MA_pop_stack(B[i].h) == MA_TRUE, "the top of the stack is popped"); gone(i); break;
    case 8: if (!B[k].live || B[k].heap || R(3)) break; ENSURE(MA_chop_stack(B[k].h) == MA_TRUE, "the stack is cut"); { long s = B[k].seq; for (i = 0; i < NB; i++) if (B[i].live && !B[i].heap && B[i].seq >= s) gone(i); } break;
    case 9: if (R(4) == 0) MA_set_numalign(R(7)); break;
    case 10: MA_set_auto_verify(R(2) ? MA_TRUE : MA_FALSE); break;
    case 11: { long np = MA_inquire_heap_no_partition(T[t]), a = MA_inquire_avail(T[t]), hq = MA_inquire_heap(T[t]), hc = MA_inquire_heap_check_stack(T[t]), s = MA_inquire_stack(T[t]), sc = MA_inquire_stack_check_heap(T[t]), sn = MA_inquire_stack_no_partition(T[t]), all = (long)(ma_eos - ma_segment) / Z[t];
        ENSURE(a >= 0 && a <= np && np <= all && a == sn, "the room between heap and stack is part of what can be allocated");
        ENSURE(hq >= 0 && hq <= all && s >= 0 && s <= all, "no more than the memory of the allocator is reported free");
        ENSURE(hc >= 0 && hc <= hq && sc >= 0 && sc <= s, "room is reported inside the announced part");
        ENSURE(hc <= np && sc <= a + 160, "honouring the partition does not give more room"); break; }
    case 12: if (f < 0) break; { char nm[] = "z"; ENSURE(MA_allocate_heap(T[t], -1 - R(5), nm, &h) == MA_FALSE && MA_push_stack(T[t], -1 - R(5), nm, &h) == MA_FALSE, "a negative number of elements is refused"); ENSURE(MA_allocate_heap(9999, 1, nm, &h) == MA_FALSE, "an unknown type is refused"); break; }
    }
    contents("blocks keep their contents until they are released");
    ENSURE(MA_verify_allocator_stuff() == MA_TRUE, "the allocator finds its own data in order");
  }
  for (i = 0; i < NB; i++) if (B[i].live && B[i].heap) { ENSURE(MA_free_heap(B[i].h) == MA_TRUE, "a heap block is freed at the end"); gone(i); }
  while ((i = top()) >= 0) { ENSURE(MA_pop_stack(B[i].h) == MA_TRUE, "a stack block is popped at the end"); gone(i); }
  ENSURE(ma_hp == ma_segment && ma_sp == ma_eos && !ma_hfree && !ma_hused && !ma_sused, "all memory is free again");
  vs_reach("end");
  return 0;
}
