// C12: a region split replayed by a store, cut off at any write (crash) or interleaved with the new region's own log.
#include "region_change.h"
using namespace rc;
static std::string S; static size_t n_split; struct Want { std::string key, val; int64_t ts; bool in, before = false; }; static std::vector<Want> want; static bool post, died;
static void run1(void*) { for (size_t i = 0; i < logs[1].size(); ++i) { apply(1, i); sched_progress(); } }
static void run2(void*) { while (!rn(2)) sched_pause(); for (size_t i = 0; i < logs[2].size(); ++i) { apply(2, i); sched_progress(); } }
static void finish() { for (size_t i = 0; i < logs[1].size(); ++i) apply(1, i); if (logs[2].size()) { sym_assert(rn(2) != nullptr, "the new region is on every store"); for (size_t i = 0; i < logs[2].size(); ++i) apply(2, i); } }
static void check() {
  auto p = reg(1), c = reg(2); bool split = n_split > 0; auto pr = p->Range(false);
  sym_assert(p->Epoch().version() == (split ? 2 : 1) && p->Epoch().conf_version() == 1, "every store gives the old region the same epoch"); sym_assert(pr.start_key() == (split ? S : "b") && pr.end_key() == "d", "every store gives the old region the same range");
  sym_assert(p->State() == pb::common::StoreRegionState::NORMAL, "the old region is normal again after the split"); sym_assert(!p->TemporaryDisableChange(), "the old region can be split or merged again");
  if (split) { sym_assert(c != nullptr, "the new region is on every store"); auto cr = c->Range(false); sym_assert(c->Epoch().version() == 2 && c->Epoch().conf_version() == 1, "every store gives the new region the same epoch"); sym_assert(cr.start_key() == "b" && cr.end_key() == S, "the new region has the rest of the range"); sym_assert(c->State() == pb::common::StoreRegionState::NORMAL, "the new region is normal after the split"); sym_assert(!c->TemporaryDisableChange(), "the new region can be split or merged"); sym_assert(c->ParentId() == 1, "the new region knows its parent"); for (auto& w : want) if (w.in && w.before) sym_assert(c->RawAppliedMaxTs() >= w.ts || died, "the new region knows the newest timestamp that was written before the split"); sym_assert(c->TxnAccessMaxTs() >= 777 || died, "the new region knows the newest timestamp that was read before the split"); sym_cover("split"); }
  else { if (post) sym_assert(c == nullptr, "no region without a split"); else sym_assert(c->State() == pb::common::StoreRegionState::STANDBY, "no region without a split"); sym_cover("not split"); }
  for (auto& w : want) { std::string v; bool has = find(w.key, w.ts, v); sym_assert(has == w.in, "a write is applied on every store exactly when the region's epoch was the proposer's"); if (has) { sym_assert(v == w.val, "the written value"); sym_cover("written"); } else sym_cover("write refused"); }
}
static void entry(pb::coordinator::SplitRequest& q, const std::string& key) { q.set_split_from_region_id(1); q.set_split_to_region_id(2); q.set_split_watershed_key(key); }
extern "C" void harness_main() {
  post = sym_param("post", 0); int n = (int)sym_param("entries", 3); S = "c"; mem::Tables none; boot(none, sym_flip("leader")); create(1, "b", "d", pb::common::StoreRegionState::NORMAL); if (!post) create(2, "b", "c", pb::common::StoreRegionState::STANDBY);
  bool bad = sym_param("bad", 0); reg(1)->SetTxnAccessMaxTs(777); n_split = 0; snap_fail = (int)sym_choice("snapshot failures", 2); bool crash = sym_param("crash", 0);
  for (int i = 0; i < n; ++i) { size_t k = sym_choice("entry", 3); int64_t cur = n_split ? 2 : 1;
    if (k == 2) { auto c = ctx(1, cur); pb::coordinator::SplitRequest q; entry(q, S); int64_t v = 1; c->SetRegionEpoch(ep(v)); size_t how = n_split ? 0 : sym_choice("split request", bad ? 3 : 1); if (how == 1) v = 2; if (how == 2) v = 0; auto g = GenRaftCmdRequest(c, WriteDataBuilder::BuildWrite(5 + i, q, ep(v))); g->mutable_requests(0)->mutable_split()->set_split_strategy(post ? pb::raft::POST_CREATE_REGION : pb::raft::PRE_CREATE_REGION); logs[1].push_back(g); if (how == 0) n_split = 1; else sym_cover("split refused"); }
    else { int64_t v = n_split ? 1 + (int64_t)k : 1; std::string key = v == 2 ? "c" : (k ? "b" : "c"); key += (char)('0' + i); logs[1].push_back(put(1, v, key, "v", 10 + i)); want.push_back({key, "v", 10 + i, v == cur, !n_split}); } }
  if (n_split) { logs[2].push_back(put(2, 2, "b9", "w", 50)); want.push_back({"b9", "w", 50, true}); }
  if (!crash) { sched_init((int)sym_param("preempt", 2)); sched_spawn(run1, nullptr); if (n_split) sched_spawn(run2, nullptr); sched_join_all(); check(); return; }
  for (int c = (int)sym_param("crashes", 1); c > 0; --c) {
    int at = (int)sym_choice("dies before write", (unsigned)sym_param("points", 40)); st->raw->crash_at = st->raw->writes + at; finish(); if (st->raw->crash_at >= st->raw->writes) { check(); return; }
    mem::Tables t = st->raw->crash_tabs; boot(t, false); died = true; sym_cover("crash"); }
  finish(); check();
}
