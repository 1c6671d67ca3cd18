// C13: one raw key-value request of every kind against any version history of two keys.
#include "raw_kv.h"
#include "realhash.h"
using namespace raw;
static const std::string K[2] = {"b", std::string("c\0", 2)}; static const char* OUT[] = {"a", "d", "c"};
static Hist H[2], G[2]; static int64_t clk;
static std::string sval(const char* n) { return sym_str_upto(n, 0, 1); }
static Hist history(int maxv) { Hist h; int n = (int)sym_choice("versions", maxv + 1); for (int i = 0; i < n; ++i) { Ver v; v.ts = (int64_t)sym_in("ts", 1, 999); if (i) sym_assume(v.ts < h.back().ts); v.flag = (int)sym_choice("flag", 3); v.ttl = v.flag == 1 ? (int64_t)sym_in("ttl", 1, INT64_MAX) : 0; if (v.flag != 2) v.val = sym_str("val", 1); h.push_back(v); } return h; }
struct Want { bool write = false, del = false; std::string val; int64_t ttl = 0; };
static int64_t ttl_of(int64_t ttl) { return ttl > 0 ? clk + ttl : 0; }
static void expect(int i, const Want& x, bool any_ok) { Hist g = look(K[i]); Hist e = H[i]; if (x.write) { Ver v; v.ts = tso; v.flag = x.del ? 2 : x.ttl > 0 ? 1 : 0; v.ttl = x.ttl; if (!x.del) v.val = x.val; e.insert(e.begin(), v); }
  sym_assert(g.size() == e.size(), x.write ? "an accepted write adds exactly one version" : "a request that does not write a key leaves its versions alone"); sym_assert(same(g, e), x.write ? "the written version carries the value, kind and expiry that were asked for and every older version is kept" : "a request that does not write a key leaves its versions alone"); }
template <class Q, class R> static void go(void (StoreServiceImpl::*m)(google::protobuf::RpcController*, const Q*, R*, google::protobuf::Closure*), Q& q, R& r) { node::hdr(q, region); node::call(m, q, r); }
// how the request is refused, if it is
enum { kFine, kStale, kOutside, kReadOnly, kNoTs, kNotLeader, kEmptyKey, kState, kBad };
extern "C" void harness_main() {
  shim_clock_step_us = 0; make((int)sym_param("engine", 0)); w.n->raw->tabs.mut(CF()); int op = (int)sym_param("op", 0), maxv = (int)sym_param("ver", 1);
  clk = shim_clock_us / 1000;
  Hist out1{{5, 0, 0, "x"}}, out2{{6, 0, 0, "y"}}; seed("a", out1); for (int i = 0; i < 2; ++i) { H[i] = history(maxv); seed(K[i], H[i]); } seed("d", out2);
  bool write = op >= 2 && op != 9; int bad = (int)sym_choice("refused", kBad); bool single = op == 0 || op == 2 || op == 4 || op == 7; int n = single || op == 6 || op == 9 ? 1 : 1 + (int)sym_choice("keys", 2);
  std::vector<int> at; for (int i = 0; i < n; ++i) at.push_back(i); if (n == 1) at[0] = (int)sym_choice("key", 2); else if (sym_flip("swap")) std::swap(at[0], at[1]);
  std::vector<std::string> keys; for (int i : at) keys.push_back(K[i]); bool range_op = op == 6 || op == 9;
  if (bad == kOutside && !range_op) keys.back() = OUT[sym_choice("outside", 2)]; if (bad == kEmptyKey && !range_op) keys.back() = "";
  if (bad == kReadOnly) { if (!write || op == 6 || op == 10) sym_stop(); w.n->read_only = true; } if (bad == kNoTs) { if (!write || op == 6) sym_stop(); tso_down = true; } if (bad == kNotLeader) { if (engine == 0) { if (!write) sym_stop(); w.n->eng->fail_one = 1; } else if (!write && sym_flip("readable")) readable = false; else leader = false; } if ((bad == kEmptyKey || bad == kOutside) && range_op) sym_stop();
  if (bad == kState) { static const pb::common::StoreRegionState S[] = {pb::common::NEW, pb::common::DELETING, pb::common::DELETED, pb::common::MERGING, pb::common::STANDBY, pb::common::ORPHAN, pb::common::TOMBSTONE}; region->SetState(S[sym_choice("state", 7)]); }
  if (bad == kStale) { auto e = region->Epoch(); if (sym_flip("conf")) e.set_conf_version(e.conf_version() + 1); else e.set_version(e.version() + 1); auto d = region->Definition(); (void)d; }
  int64_t ttl = op == 2 || op == 3 || op == 4 || op == 5 || op == 7 ? (sym_flip("with ttl") ? (int64_t)sym_in("ttl", 1, (uint64_t)1 << 50) : 0) : 0;
  bool atomic = (op == 5 || op == 8) && sym_flip("atomic"); bool kst[2] = {}; std::vector<bool> states; int err = 0; int64_t rts = 0; std::vector<std::string> vals, exps; Want W[2];
  const Ver* cur[2] = {visible(H[0], 0), visible(H[1], 0)};
  auto hdr = [&](auto& q) { node::hdr(q, region); if (bad == kStale) { auto* e = q.mutable_context()->mutable_region_epoch(); if (sym_flip("conf")) e->set_conf_version(7); else e->set_version(7); } };
  switch (op) {
    case 0: { pb::store::KvGetRequest q; pb::store::KvGetResponse p; hdr(q); q.set_key(keys[0]); int64_t ts = sym_i64("read"); q.set_ts(ts); node::call(&StoreServiceImpl::KvGet, q, p); err = p.error().errcode(); if (bad == kFine && ts >= 0) { sym_assert(err == 0, "a valid read is answered"); auto* v = visible(H[at[0]], ts); sym_assert(p.value() == (v ? v->val : std::string()), "a get returns the newest value at the timestamp"); sym_cover(v ? "found" : "absent"); } break; }
    case 1: { pb::store::KvBatchGetRequest q; pb::store::KvBatchGetResponse p; hdr(q); for (auto& k : keys) q.add_keys(k); int64_t ts = sym_flip("at ts") ? (int64_t)sym_in("read", 1, 2000) : 0; q.set_ts(ts); node::call(&StoreServiceImpl::KvBatchGet, q, p); err = p.error().errcode(); if (bad == kFine) { sym_assert(err == 0, "a valid read is answered"); int j = 0; for (int i : at) if (auto* v = visible(H[i], ts)) { sym_assert(j < p.kvs_size() && p.kvs(j).key() == K[i] && p.kvs(j).value() == v->val, "a batch get returns every present key with its newest value"); ++j; } sym_assert(p.kvs_size() == j, "a batch get returns nothing else"); } break; }
    case 2: { vals = {sval("v")}; pb::store::KvPutRequest q; pb::store::KvPutResponse p; hdr(q); q.mutable_kv()->set_key(keys[0]); q.mutable_kv()->set_value(vals[0]); q.set_ttl(ttl); node::call(&StoreServiceImpl::KvPut, q, p); err = p.error().errcode(); rts = p.ts(); W[at[0]] = {true, false, vals[0], ttl_of(ttl)}; break; }
    case 3: { pb::store::KvBatchPutRequest q; pb::store::KvBatchPutResponse p; hdr(q); for (int i = 0; i < n; ++i) { vals.push_back(sval("v")); auto* kv = q.add_kvs(); kv->set_key(keys[i]); kv->set_value(vals[i]); W[at[i]] = {true, false, vals[i], ttl_of(ttl)}; } q.set_ttl(ttl); node::call(&StoreServiceImpl::KvBatchPut, q, p); err = p.error().errcode(); rts = p.ts(); break; }
    case 4: case 5: { for (int i = 0; i < n; ++i) vals.push_back(sval("v")); bool all = true; for (int i : at) all = all && !cur[i]; for (int i = 0; i < n; ++i) { kst[i] = atomic ? all : !cur[at[i]]; if (kst[i]) W[at[i]] = {true, false, vals[i], ttl_of(ttl)}; }
      if (op == 4) { pb::store::KvPutIfAbsentRequest q; pb::store::KvPutIfAbsentResponse p; hdr(q); q.mutable_kv()->set_key(keys[0]); q.mutable_kv()->set_value(vals[0]); q.set_ttl(ttl); node::call(&StoreServiceImpl::KvPutIfAbsent, q, p); err = p.error().errcode(); rts = p.ts(); states = {p.key_state()}; }
      else { pb::store::KvBatchPutIfAbsentRequest q; pb::store::KvBatchPutIfAbsentResponse p; hdr(q); for (int i = 0; i < n; ++i) { auto* kv = q.add_kvs(); kv->set_key(keys[i]); kv->set_value(vals[i]); } q.set_is_atomic(atomic); q.set_ttl(ttl); node::call(&StoreServiceImpl::KvBatchPutIfAbsent, q, p); err = p.error().errcode(); rts = p.ts(); for (bool b : p.key_states()) states.push_back(b); } break; }
    case 6: { static const char* B[] = {"a", "b", "c", "d", "e"}; std::string s = B[sym_choice("start", 4)], e = B[1 + sym_choice("end", 4)]; bool ws = sym_flip("with start"), we = sym_flip("with end"); if (s > e) sym_stop(); pb::store::KvDeleteRangeRequest q; pb::store::KvDeleteRangeResponse p; hdr(q); auto* r = q.mutable_range(); r->mutable_range()->set_start_key(s); r->mutable_range()->set_end_key(e); r->set_with_start(ws); r->set_with_end(we); node::call(&StoreServiceImpl::KvDeleteRange, q, p); err = p.error().errcode();
      if (bad == kFine) { bool outside = s < "b" || e > "d" || (e == "d" && we); (void)outside; for (int i = 0; i < 2; ++i) { char c = K[i][0]; bool in = (ws ? c >= s[0] : c > s[0]) && (we ? c <= e[0] : c < e[0]); bool clear = s[0] >= 'b' && (we ? e[0] < 'd' : e[0] <= 'd'); if (in && clear) { sym_assert(err == 0, "a range inside the region can be deleted"); sym_assert(look(K[i]).empty() || (err != 0), "an accepted range delete removes every version of the keys of the range"); H[i].clear(); sym_cover("range deleted"); } else if (in && err == 0 && look(K[i]).empty()) H[i].clear(); } if (err) for (int i = 0; i < 2; ++i) G[i] = H[i]; } break; }
    case 7: case 8: { bool all = true; for (int i = 0; i < n; ++i) { vals.push_back(sval("v")); exps.push_back(sval("e")); } bool nf = false; std::vector<bool> mt; for (int i = 0; i < n; ++i) { auto* c = cur[at[i]]; bool m = c ? sym_fork(c->val == exps[i]) : exps[i].empty(); if (!m && all && !c) nf = true; mt.push_back(m); all = all && m; } if (op == 7) atomic = true; for (int i = 0; i < n; ++i) { kst[i] = atomic ? all : mt[i]; if (kst[i]) W[at[i]] = {true, vals[i].empty(), vals[i], ttl_of(ttl)}; if (kst[i] && vals[i].empty()) W[at[i]].ttl = 0; }
      if (op == 7) { pb::store::KvCompareAndSetRequest q; pb::store::KvCompareAndSetResponse p; hdr(q); q.mutable_kv()->set_key(keys[0]); q.mutable_kv()->set_value(vals[0]); q.set_expect_value(exps[0]); q.set_ttl(ttl); node::call(&StoreServiceImpl::KvCompareAndSet, q, p); err = p.error().errcode(); rts = p.ts(); states = {p.key_state()}; }
      else { pb::store::KvBatchCompareAndSetRequest q; pb::store::KvBatchCompareAndSetResponse p; hdr(q); for (int i = 0; i < n; ++i) { auto* kv = q.add_kvs(); kv->set_key(keys[i]); kv->set_value(vals[i]); q.add_expect_values(exps[i]); } q.set_is_atomic(atomic); node::call(&StoreServiceImpl::KvBatchCompareAndSet, q, p); err = p.error().errcode(); rts = p.ts(); for (bool b : p.key_states()) states.push_back(b); }
      if (bad == kFine && !all && err == pb::error::EKEY_NOT_FOUND && nf) { err = 0; if (states.empty()) states.assign(n, false); } break; }   // a missing key with an expected value may be answered by an error
    case 10: { pb::store::KvBatchDeleteRequest q; pb::store::KvBatchDeleteResponse p; hdr(q); for (auto& k : keys) q.add_keys(k); node::call(&StoreServiceImpl::KvBatchDelete, q, p); err = p.error().errcode(); for (bool b : p.key_states()) states.push_back(b); for (int i = 0; i < n; ++i) { W[at[i]] = {true, true, "", 0}; kst[i] = cur[at[i]] != nullptr; } break; }
  }
  bool wrote = W[0].write || W[1].write;
  if (bad == kFine) { if (op != 6 && op != 0) sym_assert(err == 0, "a valid request is accepted");
    if (op == 4 || op == 5 || op == 7 || op == 8 || op == 10) { sym_assert((int)states.size() == n, "every key of the request gets an answer"); for (int i = 0; i < n; ++i) sym_assert(states[i] == kst[i], "the state reported for each key says whether it was written (or, for a delete, was there)"); sym_cover(wrote ? "written" : "not written"); }
    if (wrote && op != 10) sym_assert(rts == tso, "the timestamp of the write is returned"); if (op != 6) for (int i = 0; i < 2; ++i) expect(i, W[i], true); else for (int i = 0; i < 2; ++i) expect(i, Want(), true); sym_cover("accepted"); }
  else { bool quiet = (bad == kNoTs || bad == kNotLeader || bad == kReadOnly) && write && (op != 6 && !wrote && op != 10);   // nothing had to be written
    bool inv = op == 6 && err == 0; if (!quiet && !inv) { sym_assert(err != 0, "an invalid, stale or unserviceable request is refused"); sym_cover("refused"); } for (bool b : states) if (err && op != 10) sym_assert(!b, "a refused request reports no key as written"); for (int i = 0; i < 2; ++i) expect(i, Want(), false); }
  sym_assert(same(look("a"), out1) && same(look("d"), out2), "keys outside the region are never changed");
  // what a client reads afterwards
  leader = readable = true; tso_down = false; w.n->read_only = false; region->SetState(pb::common::StoreRegionState::NORMAL);
  pb::store::KvBatchGetRequest q; pb::store::KvBatchGetResponse p; node::hdr(q, region); q.add_keys(K[0]); q.add_keys(K[1]); node::call(&StoreServiceImpl::KvBatchGet, q, p); int j = 0;
  for (int i = 0; i < 2; ++i) { const Ver* v = nullptr; Ver nv; if (bad == kFine && W[i].write) { if (!W[i].del) { nv = {tso, 0, 0, W[i].val}; v = &nv; } } else v = visible(H[i], 0); if (v) { sym_assert(j < p.kvs_size() && p.kvs(j).key() == K[i] && p.kvs(j).value() == v->val, "a later read sees exactly the accepted writes"); ++j; } } sym_assert(p.kvs_size() == j, "a later read sees exactly the accepted writes");
  sym_observe("err", err);
}
