/* C20 (bounded): enumeration, segmented scans, pack/unpack and binning on the real library */
#include "sim_ga.h"
static adesc A, B, K; static model M, N, Q; static unsigned long long S0; static int what_, n_;
static val v_zero(void) { val v = { 0, 0 }; return v; }
static int v_set(val v, int t) { return v.re != 0 || (sg_cpl(t) && v.im != 0); }
static void mask_fill(model *m, unsigned long long *s, int q) { long i; for (i = 0; i < sg_elems(m->a); i++) { m->v[i] = v_zero(); if (sg_x(s) % q == 0) { m->v[i] = v_s(s, 2, m->a->type); } } }
static void range_s(unsigned long long *s, long n, Integer *lo, Integer *hi) { long r = sg_x(s) % 4, x = 1 + sg_x(s) % n, y = 1 + sg_x(s) % n; if (r == 0) { x = 1; y = n; } if (x > y) { long z = x; x = y; y = z; } *lo = x; *hi = y; }
static void rank_enum(int me) {
  Integer g, lo, hi; int t = A.type, q; unsigned long long s = S0; model P = m_new(&A); char a[16], b[16]; long i;
  GA_INIT();
  g = sg_create(&A); sg_store(g, &M); memcpy(P.v, M.v, sg_elems(&A) * sizeof(val));
  for (q = 0; q < n_; q++) {
    val x = v_s(&s, 9, t), y = v_s(&s, 5, t); range_s(&s, A.dims[0], &lo, &hi); enc(a, t, x); enc(b, t, y);
    S(pnga_patch_enum)(g, lo, hi, a, b);
    for (i = lo; i <= hi; i++) { val k = v_zero(); k.re = i - lo; P.v[i - 1] = v_add(x, v_mul(k, y, t)); }
    S(pnga_sync)(); sg_compare(g, &P, "enumeration stores start + k * stride in the k-th element of the patch and nothing else"); S(pnga_sync)();
  }
  GA_TERM();
}
VS_ENTRY(vs_enum) {
  int kind = (int)vs_case("kind", 0, 2);
  sg_begin(5);
  sg_draw(&A, 1, kind, (int)vs_long("type", 0, 5), 40);
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  if (kind == KREG && vs_long("restricted", 0, 2) == 0) sg_restrict(&A);
  n_ = (int)vs_long("n", 1, 3);
  M = m_new(&A); S0 = vs_long("stream", 1, 1L << 40); { unsigned long long s = S0; m_fill(&M, &s, 9); }
  sim_run(sg_np, sg_seed, rank_enum);
  vs_reach("end");
  return 0;
}
/* src, dst and mask have the same distribution */
static void rank_scan(int me) {
  Integer g, h, k, lo, hi; int t = A.type, q; unsigned long long s = S0; model P = m_new(&B); long i;
  GA_INIT();
  g = sg_create(&A); h = sg_create(&B); k = sg_create(&K); sg_store(g, &M); sg_store(h, &N); sg_store(k, &Q); memcpy(P.v, N.v, sg_elems(&B) * sizeof(val));
  for (q = 0; q < n_; q++) {
    int how = (int)(sg_x(&s) % 3), seen = 0; val sum = v_zero(); range_s(&s, A.dims[0], &lo, &hi);
    if (how == 0) { S(pnga_scan_copy)(g, h, k, lo, hi); for (i = lo; i <= hi; i++) { if (v_set(Q.v[i - 1], K.type)) sum = M.v[i - 1]; P.v[i - 1] = sum; } }
    else { S(pnga_scan_add)(g, h, k, lo, hi, how - 1);
      for (i = lo; i <= hi; i++) { if (v_set(Q.v[i - 1], K.type)) { seen = 1; sum = v_zero(); } if (!seen) continue; if (how == 1) { sum = v_add(sum, M.v[i - 1]); P.v[i - 1] = sum; } else { P.v[i - 1] = sum; sum = v_add(sum, M.v[i - 1]); } } }
    if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d scan %d %ld..%ld\n", me, how, (long)lo, (long)hi);
    S(pnga_sync)(); sg_compare(h, &P, how ? "a segmented sum restarts at every set mask element and changes only the range" : "a segmented copy repeats the source element of the last set mask element and changes only the range"); S(pnga_sync)();
  }
  sg_compare(g, &M, "a scan leaves the source unchanged"); sg_compare(k, &Q, "a scan leaves the mask unchanged"); S(pnga_sync)();
  GA_TERM();
}
static void draw_src(int kind) {
  sg_draw(&A, 1, kind, (int)vs_long("type", 0, 5), (int)vs_long("max", 1, 50));
  if (kind == KIRREG && vs_long("ghost", 0, 2) == 0) sg_ghosts(&A, 2);
  if (kind == KREG && vs_long("restricted", 0, 2) == 0) sg_restrict(&A);
  K = A; K.type = (int)vs_long("mtype", 0, 5);
}
VS_ENTRY(vs_scan) {
  int kind = (int)vs_case("kind", 0, 2), q;
  sg_begin(5);
  draw_src(kind); B = A; 
  n_ = (int)vs_long("n", 1, 3); q = (int)vs_long("density", 1, 20);
  M = m_new(&A); N = m_new(&B); Q = m_new(&K); S0 = vs_long("stream", 1, 1L << 40); { unsigned long long s = S0; m_fill(&M, &s, 9); m_fill(&N, &s, 9); mask_fill(&Q, &s, q); }
  sim_run(sg_np, sg_seed, rank_scan);
  vs_reach("end");
  return 0;
}
/* pack: src, mask alike, dst free; unpack: dst, mask alike, src free */
static void rank_pack(int me) {
  Integer g, h, k, lo, hi, cnt, want; int q; unsigned long long s = S0; model P = m_new(&A), R = m_new(&B); long i;
  GA_INIT();
  g = sg_create(&A); h = sg_create(&B); k = sg_create(&K); sg_store(g, &M); sg_store(h, &N); sg_store(k, &Q); memcpy(P.v, M.v, sg_elems(&A) * sizeof(val)); memcpy(R.v, N.v, sg_elems(&B) * sizeof(val));
  for (q = 0; q < n_; q++) {
    int un = (int)(sg_x(&s) % 2); range_s(&s, A.dims[0], &lo, &hi); want = 0; cnt = -7;
    for (i = lo; i <= hi; i++) if (v_set(Q.v[i - 1], K.type)) want++;
    if (want > B.dims[0]) continue;
    want = 0;
    for (i = lo; i <= hi; i++) if (v_set(Q.v[i - 1], K.type)) { if (un) P.v[i - 1] = R.v[want]; else R.v[want] = P.v[i - 1]; want++; }
    if (un) S(pnga_unpack)(h, g, k, lo, hi, &cnt); else S(pnga_pack)(g, h, k, lo, hi, &cnt);
    if (getenv("VS_VERBOSE")) fprintf(stderr, "rank %d %s %ld..%ld count %ld want %ld\n", me, un ? "unpack" : "pack", (long)lo, (long)hi, (long)cnt, (long)want);
    ENSURE(cnt == want, "every process gets the number of set mask elements in the range");
    S(pnga_sync)(); sg_compare(g, &P, "unpack stores successive elements at the set mask elements, pack leaves the source unchanged"); sg_compare(h, &R, "pack stores the selected elements in order, unpack leaves the source unchanged"); S(pnga_sync)();
  }
  sg_compare(k, &Q, "the mask is unchanged"); S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_packga) {
  int kind = (int)vs_case("kind", 0, 2), q;
  sg_begin(5);
  draw_src(kind); 
  { adesc b = A; if (vs_long("shorter", 0, 2) == 0) b.dims[0] = vs_long("bdim", 1, A.dims[0]); sg_draw_like(&B, &b, (int)vs_long("bkind", 0, 6)); }
  n_ = (int)vs_long("n", 1, 3); q = (int)vs_long("density", 1, 8);
  M = m_new(&A); N = m_new(&B); Q = m_new(&K); S0 = vs_long("stream", 1, 1L << 40); { unsigned long long s = S0; m_fill(&M, &s, 9); m_fill(&N, &s, 9); mask_fill(&Q, &s, q); }
  sim_run(sg_np, sg_seed, rank_pack);
  vs_reach("end");
  return 0;
}
/* binning: nb bins, every process contributes values grouped by bin */
static int nb_, sort_; static long cnt_[64], off_[64], tot_; static int mine_[8][64];
#define FT (sizeof(Integer) == 8 ? 1 : 0)
static int cmpl(const void *a, const void *b) { long x = *(const long*)a, y = *(const long*)b; return x < y ? -1 : x > y; }
static long valof(int p, int b, int i) { unsigned long long s = S0 + 977 * p + 31 * b + i; sg_x(&s); sg_x(&s); return (long)(sg_x(&s) % 1000); }
static void rank_bin(int me) {
  Integer gc, go, gb, *v, *sub, lo, hi, ld = 1, *buf; int b, i, n = 0, p; model C = m_new(&K), O = m_new(&K); long w[4096];
  GA_INIT();
  for (b = 0; b < nb_; b++) { C.v[b] = v_zero(); C.v[b].re = cnt_[b]; O.v[b] = v_zero(); O.v[b].re = off_[b]; n += mine_[me][b]; }
  gc = sg_create(&K); go = sg_create(&K); gb = sg_create(&B); sg_store(gc, &C); sg_store(go, &O);
  v = malloc((n + 1) * sizeof *v); sub = malloc((n + 1) * sizeof *sub); n = 0;
  for (b = 0; b < nb_; b++) for (i = 0; i < mine_[me][b]; i++) { v[n] = valof(me, b, i); sub[n++] = b + 1; }
  S(pnga_bin_index)(gb, gc, go, v, sub, n, sort_);
  S(pnga_sync)();
  buf = malloc((tot_ + 1) * sizeof *buf); lo = 1; hi = tot_; S(pnga_get)(gb, &lo, &hi, buf, &ld);
  for (b = 0; b < nb_; b++) { long k = 0, j; static long got[8][4096];
    for (p = 0; p < sg_np; p++) for (i = 0; i < mine_[p][b]; i++) w[k++] = valof(p, b, i);
    for (j = 0; j < k; j++) got[me][j] = buf[off_[b] + j];
    qsort(w, k, sizeof *w, cmpl);
    if (!sort_) qsort(got[me], k, sizeof **got, cmpl);
    for (j = 0; j < k; j++) { if (getenv("VS_VERBOSE") && got[me][j] != w[j]) fprintf(stderr, "rank %d bin %d[%ld] got %ld want %ld\n", me, b, j, got[me][j], w[j]); ENSURE(got[me][j] == w[j], sort_ ? "every bin holds the values put into it in order" : "every bin holds exactly the values put into it"); } }
  sg_compare(gc, &C, "the bin counts are unchanged"); sg_compare(go, &O, "the bin offsets are unchanged");
  S(pnga_sync)();
  GA_TERM();
}
VS_ENTRY(vs_bin) {
  int kind = (int)vs_case("kind", 0, 2), p, b; 
  sg_begin(5); sort_ = (int)vs_case("sort", 0, 1);
  memset(&B, 0, sizeof B); B.nd = 1; B.type = FT; memset(cnt_, 0, sizeof cnt_); memset(mine_, 0, sizeof mine_);
  sg_draw(&K, 1, kind, FT, 12); nb_ = (int)K.dims[0]; S0 = vs_long("stream", 1, 1L << 40);
  { unsigned long long s = S0; for (p = 0; p < sg_np; p++) for (b = 0; b < nb_; b++) { int r = (int)(sg_x(&s) % 3); mine_[p][b] = r == 0 ? 0 : (int)(sg_x(&s) % 5); cnt_[b] += mine_[p][b]; } 
    for (b = 0; b < nb_; b++) if (cnt_[b] == 0 && (sort_ || sg_x(&s) % 2)) { p = (int)(sg_x(&s) % sg_np); mine_[p][b] = 1; cnt_[b] = 1; } }
  for (tot_ = 0, b = 0; b < nb_; b++) { off_[b] = tot_; tot_ += cnt_[b]; }
  REQUIRE(tot_ >= 1 && tot_ < 2000);
  B.dims[0] = tot_;
  if (sort_) { /* no bin is split between processes */ int n = 0, m = sg_np < nb_ ? sg_np : nb_; B.kind = KIRREG; m = (int)vs_long("owners", 1, m); for (b = 0; b < nb_; b++) if (n == 0 || (n < m && (nb_ - b <= m - n || vs_long("cut", 0, 2) == 0))) B.map[n++] = off_[b] + 1; B.nb[0] = n; }
  else { adesc b2 = B; sg_draw_like(&B, &b2, (int)vs_long("bkind", 0, 6)); }
  REQUIRE(nb_ <= tot_);
  sim_run(sg_np, sg_seed, rank_bin);
  vs_reach("end");
  return 0;
}
