/* C11: the tables of one process group.  Real code: global/src/base.c pnga_pgroup_create, pnga_pgroup_destroy, pnga_pgroup_nodeid,
   pnga_pgroup_nnodes.  ARMCI_Group_create / _free are by contract.  Any number of processes, any parent; member lists of 1 to 3 entries. */
#include "global/src/base.c"
#include "vs.h"
#define PROCS VS_LIM(1L << 20, 12)
static proc_list_t vpg[4]; static global_array_t vga[4]; static long np_, pn_, cnt_, l_[4]; static int calls_, freed_, *inv_, rk_[4], seen_[4], good_;
void pnga_error(char *s, Integer c) { ENSURE(0, "no error is raised for valid arguments"); vs_abort(); }
void ARMCI_Group_create(int n, int *list, ARMCI_Group *g) {
  int i; calls_ = calls_ + 1; good_ = n == cnt_;
  for (i = 0; i < cnt_; i++) { if (list[rk_[i]] != l_[i]) good_ = 0; } }
void ARMCI_Group_free(ARMCI_Group *g) { freed_ = freed_ + 1; }
VS_ENTRY(vs_tables) {
  int i, j, slot, par, w, k, mem; Integer h; int *other;
  slot = (int)vs_case("slot", 0, 2); cnt_ = vs_case("count", 1, 3); par = (int)vs_case("parent", -1, 1);
  if (par >= slot) { vs_reach("end"); return 0; }
  np_ = vs_long("nproc", cnt_, PROCS); pn_ = par < 0 ? np_ : vs_long("parentsize", cnt_, np_);
  GAnproc = np_; GA = vga; PGRP_LIST = vpg; _max_global_array = 4; GA_Default_Proc_Group = par; calls_ = freed_ = 0;
  other = vs_ints("otherlist", np_, 12, -1, PROCS); inv_ = vs_ints("parentlist", np_, 12, 0, PROCS);
  for (i = 0; i < 4; i++) { vpg[i].actv = i < slot; vpg[i].map_proc_list = i == par ? inv_ : other; vpg[i].inv_map_proc_list = i == par ? inv_ : other; vpg[i].map_nproc = (int)pn_; }
  for (i = 0; i < cnt_; i++) {
    l_[i] = vs_long("member", 0, PROCS); REQUIRE(l_[i] < pn_);
    for (j = 0; j < i; j++) REQUIRE(l_[i] != l_[j]);
    if (par >= 0) { REQUIRE(0 <= inv_[l_[i]] && inv_[l_[i]] < np_); for (j = 0; j < i; j++) REQUIRE(inv_[l_[i]] != inv_[l_[j]]); }
  }
  for (i = 0; i < cnt_; i++) { rk_[i] = 0; for (j = 0; j < cnt_; j++) if (l_[j] < l_[i]) rk_[i]++; }
  w = (int)vs_witness("process", 0, np_ - 1); k = (int)vs_witness("number", 0, np_ - 1);
  { Integer arg[4]; for (i = 0; i < cnt_; i++) arg[i] = l_[i];
    h = pnga_pgroup_create(arg, cnt_); }
  ENSURE(h == slot, "a new group gets a handle no live group has");
  ENSURE(calls_ == 1 && good_, "the communicator is made once, of the members in ascending order");
  ENSURE(vpg[slot].actv == 1 && vpg[slot].parent == par && vpg[slot].map_nproc == cnt_, "a new group is live and knows its size and parent");
  for (i = 0; i < cnt_; i++) {
    int a = par < 0 ? (int)l_[i] : inv_[l_[i]];
    ENSURE(vpg[slot].inv_map_proc_list[rk_[i]] == a, "a group rank stands for the listed process of the parent");
    ENSURE(vpg[slot].map_proc_list[a] == rk_[i], "a member has its place in the ascending list as its group rank"); }
  mem = 0; for (i = 0; i < cnt_; i++) if (w == (par < 0 ? (int)l_[i] : inv_[l_[i]])) mem = 1;
  if (!mem) ENSURE(vpg[slot].map_proc_list[w] == -1, "a process not listed has no rank in the group");
  if (k >= cnt_) ENSURE(vpg[slot].inv_map_proc_list[k] == -1, "a group has no ranks beyond its members");
  GAme = w; ENSURE(pnga_pgroup_nodeid(h) == vpg[slot].map_proc_list[w], "the number of a process in a group is its rank");
  ENSURE(pnga_pgroup_nnodes(h) == cnt_, "the size of a group is its number of members");
  GA_Default_Proc_Group = (int)h;
  if (slot > 0) ENSURE(pnga_nnodes() == cnt_, "the number of processes refers to the default group");
  for (i = 0; i < 4; i++) if (i != slot) ENSURE(vpg[i].actv == (i < slot) && vpg[i].map_proc_list == (i == par ? inv_ : other), "other groups are left alone");
  ENSURE(pnga_pgroup_destroy(h) == TRUE && vpg[slot].actv == 0 && freed_ == 1, "destroying a group removes it and its communicator once");
  ENSURE(pnga_pgroup_destroy(h) == FALSE && freed_ == 1, "destroying a group that is gone reports it");
  vs_reach("end");
  return 0;
}
/* the member list a duplicate or a split hands to pnga_pgroup_create (by contract: the tables above) */
static long gs_, me_, made_, rat_, old_, wq_, wp_, w0_; static Integer grp_; static Integer *col_; static long mine_;
void ARMCI_Group_set_default(ARMCI_Group *g) {}
void ARMCI_Group_get_world(ARMCI_Group *g) {}
Integer create_by_contract(Integer *list, Integer count) {
  long c = made_; made_ = c + 1;
  if (calls_ == 1) {
    ENSURE(GA_Default_Proc_Group == -1, "the members of a duplicate are numbers of the world");
    ENSURE(count == pn_ && list[wq_] == (grp_ < 0 ? wq_ : (Integer)inv_[wq_]), "a duplicate has the members of the group, in order"); }
  if (calls_ == 2) {
    ENSURE(GA_Default_Proc_Group == grp_, "the members of a split are numbers in the group that is split");
    ENSURE(c < (pn_ + gs_ - 1) / gs_, "a split makes as many groups as are needed");
    ENSURE(count == (c * gs_ + gs_ <= pn_ ? gs_ : pn_ - c * gs_), "the groups of a split are of the same size, the last one of the rest");
    if (wq_ < count) ENSURE(list[wq_] == c * gs_ + wq_, "a split cuts the group into consecutive pieces"); }
  if (calls_ == 3) {
    ENSURE(GA_Default_Proc_Group == grp_, "the members of a split by colour are numbers in the group that is split");
    ENSURE(1 <= count && count <= pn_, "a split by colour has a member");
    if (wq_ < count) { long q = list[wq_]; ENSURE(0 <= q && q < pn_, "a member of a split by colour is a process of the group"); ENSURE(col_[q] == mine_, "a member of a split by colour has the colour"); } }
  return 5 + c; }
void pnga_gop(Integer type, void *x, Integer n, char *op) {   /* every process contributes its own entry */
  Integer *v = x; ENSURE(n == pn_, "every process takes part"); REQUIRE(col_[me_] == mine_);
  if (wq_ < n) ENSURE(v[wq_] == (wq_ == me_ ? mine_ : 0), "a process contributes its own colour only");
  memcpy(v, col_, n * sizeof *v); }
Integer pnga_type_f2c(Integer t) { return t == MT_F_INT ? C_LONG : t; }
static void group(void) {
  if (made_ > 9) create_by_contract(0, 0);
  int i; grp_ = vs_case("grp", -1, 1); np_ = vs_long("nproc", 1, PROCS); pn_ = grp_ < 0 ? np_ : vs_long("size", 1, np_); if (grp_ == 0) grp_ = 2;
  me_ = vs_long("me", 0, pn_ - 1); old_ = vs_long("default", -1, 3);
  GAnproc = np_; GA = vga; PGRP_LIST = vpg; _max_global_array = 4; GA_Default_Proc_Group = (int)old_; made_ = 0;
  inv_ = vs_ints("members", np_, 12, 0, PROCS);
  for (i = 0; i < 4; i++) { vpg[i].actv = 1; vpg[i].map_nproc = i == grp_ ? (int)pn_ : 1; vpg[i].parent = 7; }
  if (grp_ >= 0) { vpg[grp_].inv_map_proc_list = inv_; GAme = inv_[me_]; REQUIRE(0 <= GAme && GAme < np_);
    vpg[grp_].map_proc_list = vs_ints("ranks", np_, 12, -1, PROCS);
#ifdef VS_NATIVE
    vpg[grp_].map_proc_list[GAme] = (int)me_;
#else
    REQUIRE(vpg[grp_].map_proc_list[GAme] == me_);
#endif
    vpg[grp_].parent = -1; }
  else GAme = me_;
  wq_ = vs_witness("entry", 0, pn_ - 1); }
VS_ENTRY(vs_dup) {
  Integer h; group(); calls_ = 1; PGRP_LIST = vpg;
  { static proc_list_t more[8]; int i; for (i = 0; i < 4; i++) more[i] = vpg[i]; PGRP_LIST = more;
    h = pnga_pgroup_duplicate(grp_);
    if (grp_ >= 0) ENSURE(more[5].parent == more[grp_].parent, "a duplicate has the parent of the group"); }
  ENSURE(h == 5 && made_ == 1, "one group is made and its handle is returned");
  ENSURE(GA_Default_Proc_Group == old_, "the default group is left alone");
  vs_reach("end"); return 0; }
VS_ENTRY(vs_split) {
  Integer h, num; group(); calls_ = 2; num = vs_long("groups", 1, PROCS);
  gs_ = pn_ / num; if (gs_ * num < pn_) gs_ = gs_ + 1; rat_ = me_ / gs_;
  h = pnga_pgroup_split(grp_, num);
  ENSURE(made_ == (pn_ + gs_ - 1) / gs_, "a split makes as many groups as are needed");
  ENSURE(h == 5 + rat_, "a process gets the group of its piece");
  ENSURE(GA_Default_Proc_Group == old_, "the default group is left alone");
  vs_reach("end"); return 0; }
VS_ENTRY(vs_color) {
  Integer h; group(); calls_ = 3; mine_ = vs_long("colour", 0, 1L << 30); col_ = vs_longs("colours", np_, 12, 0, 1L << 30);
#ifdef VS_NATIVE
  col_[me_] = mine_;
#endif
  h = pnga_pgroup_split_irreg(grp_, mine_);
  ENSURE(h == 5 && made_ == 1, "one group is made and its handle is returned");
  ENSURE(GA_Default_Proc_Group == old_, "the default group is left alone");
  vs_reach("end"); return 0; }
