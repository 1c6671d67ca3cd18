// C12: two neighbouring regions are merged; the leader proposes the commit, a follower replays both logs in any interleaving, or dies at any write.
#include "region_change.h"
using namespace rc;
enum { SRC = 1, TGT = 2 }; struct Want { std::string key; int64_t ts; bool in; }; static std::vector<Want> want; static int64_t vs, vt; static bool died; static bool left, all, first; static std::string a, b, ta, tb;
static void run_s(void*) { for (size_t i = 0; i < logs[SRC].size(); ++i) { apply(SRC, i); sched_progress(); } }
static bool committed() { return reg(TGT)->LastChangeJobId() == 7; }
static void run_t(void*) { for (size_t i = 0; all ? i < logs[TGT].size() : !committed();) { if (i >= logs[TGT].size()) { sched_pause(); continue; } apply(TGT, i++); sched_progress(); } }
static void run(int preempt) { sched_init(preempt); sched_spawn(run_s, nullptr); sched_spawn(run_t, nullptr); sched_join_all(); }
static void check() {
  auto s = reg(SRC), t = reg(TGT); auto r = t->Range(false); int64_t v = (vs > vt ? vs : vt) + 1;
  sym_assert(t->Epoch().version() == v && t->Epoch().conf_version() == 1, "every store gives the merged region the same epoch"); sym_assert(r.start_key() == "b" && r.end_key() == "f", "the merged region has both ranges");
  sym_assert(t->State() == pb::common::StoreRegionState::NORMAL && !t->TemporaryDisableChange(), "the merged region is normal and can be split or merged again"); for (auto& w : want) if (w.in && !died) sym_assert(t->RawAppliedMaxTs() >= w.ts, "the merged region knows the newest timestamp written in either region"); if (!died) sym_assert( t->TxnAccessMaxTs() >= (st->leader ? 777 : 0), "the merged region knows the newest timestamp read in either region"); sym_assert(s->State() == pb::common::StoreRegionState::TOMBSTONE, "the source region is gone after the merge");
  for (auto& w : want) { std::string x; bool has = find(w.key, w.ts, x); sym_assert(has == w.in, "a write is applied on every store exactly when the region's epoch was the proposer's"); if (has) sym_cover("written"); else sym_cover("write refused"); }
}
static void add(int64_t id, int64_t v, const std::string& k, int64_t ts, bool in) { logs[id].push_back(put(id, v, k, "v", ts)); want.push_back({k, ts, in}); }
extern "C" void harness_main() {
  left = sym_flip("source is the left one"); a = left ? "b" : "d"; b = left ? "d" : "f"; ta = left ? "d" : "b"; tb = left ? "f" : "d"; vs = sym_flip("older") ? 2 : 5; vt = 3;
  boot(mem::Tables(), true); create(SRC, a, b, pb::common::StoreRegionState::NORMAL, vs); create(TGT, ta, tb, pb::common::StoreRegionState::NORMAL, vt); mem::Tables init = st->raw->tabs; init.get("x");
  bool stale = sym_flip("stale write"); reg(SRC)->SetTxnAccessMaxTs(777); add(SRC, stale ? vs - 1 : vs, a + "1", 1010, !stale);
  if (sym_param("more", 0)) { bool st2 = sym_flip("stale write 2"); add(SRC, st2 ? vs - 1 : vs, a + "2", 1011, !st2); }
  { auto c = ctx(SRC, vs); logs[SRC].push_back(GenRaftCmdRequest(c, WriteDataBuilder::BuildWrite(7, reg(TGT)->Definition(), (first = sym_flip("first applied everywhere")) ? 1 : 0))); }
  add(SRC, vs, a + "3", 1012, false); add(TGT, vt, ta + "4", 13, true);
  all = false; run(0); int64_t v = (vs > vt ? vs : vt) + 1; size_t n = logs[TGT].size(); if (n < 2) sym_fail("the leader commits the merge"); tsp->batch_ts_list_->Push(mvcc::BatchTs::New(0, 900, 100)); if (!stale) { int64_t ts = tsp->batch_ts_list_->GetTs(); sym_assert(ts == 0 || ts > 1010, "after the merge the leader gives no write a timestamp at or below one written in the source region"); } if (n > 2) sym_cover("commit proposed twice");
  add(TGT, vt, ta + "5", 14, false); add(TGT, v, a + "6", 15, true); add(TGT, v, ta + "7", 16, true); for (size_t i = 2; i < logs[TGT].size(); ++i) apply(TGT, i); check();
  boot(init, false); all = true; if (first) apply(SRC, 0);  int crash = (int)sym_param("crash", 0), pre = (int)sym_param("preempt", 1);
  for (; crash > 0; --crash) { int at = (int)sym_choice("dies before write", (unsigned)sym_param("points", 60)); st->raw->crash_at = st->raw->writes + at; run(pre); if (st->raw->crash_at >= st->raw->writes) { check(); return; } mem::Tables t = st->raw->crash_tabs; boot(t, false); died = true; sym_cover("crash"); }
  run(pre); check();
}
