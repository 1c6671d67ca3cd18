// Transaction requests against one store node, and a reader of the stored versions.
#pragma once
#include "mvcc/codec.h"
#include "node.h"
#include "common/constant.h"
namespace dingodb { DECLARE_int64(max_short_value_in_write_cf); }
namespace txn {
using namespace dingodb;
enum { kPut = 1, kDelete = 2, kPia = 3, kRollback = 4, kLock = 5 };
struct Lock { bool on = false; int64_t ts = 0, fut = 0, min_commit = 0, ttl = 0; int type = 0; bool async = false; std::string value, primary; std::vector<std::string> secondaries; };
struct Rec { int64_t cts = 0, sts = 0; int op = 0; std::string value; };   // value "?" when the data record is missing
struct KeyState { Lock lock; std::vector<Rec> recs; };   // newest first
inline const std::string& DataCF() { return Constant::kTxnDataCF; } inline const std::string& LockCF() { return Constant::kTxnLockCF; } inline const std::string& WriteCF() { return Constant::kTxnWriteCF; }
inline std::string ek(const std::string& k, int64_t ts) { return mvcc::Codec::EncodeKey(k, ts); }
inline bool short_val(const std::string& v) { return (int64_t)v.size() <= FLAGS_max_short_value_in_write_cf; }
inline void raw_append(const std::string& cf, const std::string& k, const std::string& v) { node::cur->raw->tabs.mut(cf).push_back({k, v}); }   // in key order: no comparison
inline void put_data(const std::string& k, int64_t ts, const std::string& v) { pb::common::KeyValue kv; kv.set_key(ek(k, ts)); kv.set_value(v); node::cur->raw->Writer()->KvPut(DataCF(), kv); }
inline void seed_lock(const std::string& k, const Lock& l) { pb::store::LockInfo i; i.set_primary_lock(l.primary); i.set_lock_ts(l.ts); i.set_for_update_ts(l.fut); i.set_min_commit_ts(l.min_commit); i.set_key(k); i.set_lock_ttl(l.ttl); i.set_txn_size(1); i.set_lock_type((pb::store::Op)l.type); i.set_use_async_commit(l.async); for (auto& x : l.secondaries) i.add_secondaries(x);
  if (l.type == kPut) { if (short_val(l.value)) i.set_short_value(l.value); else put_data(k, l.ts, l.value); }
  raw_append(LockCF(), ek(k, Constant::kLockVer), i.SerializeAsString()); }
inline void seed_rec(const std::string& k, const Rec& r) { pb::store::WriteInfo w; w.set_start_ts(r.sts); w.set_op((pb::store::Op)r.op); if (r.op == kPut) { if (short_val(r.value)) w.set_short_value(r.value); else put_data(k, r.sts, r.value); } raw_append(WriteCF(), ek(k, r.cts), w.SerializeAsString()); }
inline int64_t ver_of(const std::string& raw) { uint64_t v = 0; for (size_t i = raw.size() - 8; i < raw.size(); ++i) v = (v << 8) | (uint8_t)raw[i]; return (int64_t)~v; }   // big-endian, inverted
inline std::string prefix(const std::string& k) { std::string e = ek(k, 1); return e.substr(0, e.size() - 8); }
inline KeyState look(const std::string& k) {
  KeyState s; auto& T = node::cur->raw->tabs; std::string p = prefix(k);
  for (auto& e : *T.get(LockCF())) if (e.first.compare(0, p.size(), p) == 0 && e.first.size() == p.size() + 8) { pb::store::LockInfo i; if (!i.ParseFromString(e.second)) sym_fail("a stored lock record can be parsed"); if (i.primary_lock().empty()) continue; s.lock.on = true; s.lock.ts = i.lock_ts(); s.lock.fut = i.for_update_ts(); s.lock.min_commit = i.min_commit_ts(); s.lock.ttl = i.lock_ttl(); s.lock.type = i.lock_type(); s.lock.async = i.use_async_commit(); s.lock.primary = i.primary_lock(); s.lock.value = i.short_value(); for (auto& x : i.secondaries()) s.lock.secondaries.push_back(x);
    if (s.lock.type == kPut && s.lock.value.empty()) { s.lock.value = "?"; for (auto& d : *T.get(DataCF())) if (d.first.size() == p.size() + 8 && d.first.compare(0, p.size(), p) == 0 && sym_fork(ver_of(d.first) == s.lock.ts)) s.lock.value = d.second; } }
  for (auto& e : *T.get(WriteCF())) if (e.first.size() == p.size() + 8 && e.first.compare(0, p.size(), p) == 0) { pb::store::WriteInfo w; if (!w.ParseFromString(e.second)) sym_fail("a stored write record can be parsed"); Rec r; r.cts = ver_of(e.first); r.sts = w.start_ts(); r.op = w.op(); r.value = w.short_value();
    if (r.op == kPut && r.value.empty()) { r.value = "?"; for (auto& d : *T.get(DataCF())) if (d.first.size() == p.size() + 8 && d.first.compare(0, p.size(), p) == 0 && sym_fork(ver_of(d.first) == r.sts)) r.value = d.second; }
    s.recs.push_back(r); }
  return s; }
inline bool same(const Rec& a, const Rec& b) { return (a.cts == b.cts) & (a.sts == b.sts) & (a.op == b.op) & (a.op != kPut || a.value == b.value); }
inline bool same(const Lock& a, const Lock& b) { if (a.on != b.on) return false; if (!a.on) return true; return (a.ts == b.ts) & (a.fut == b.fut) & (a.min_commit == b.min_commit) & (a.type == b.type) & (a.ttl == b.ttl) & (a.async == b.async) & (a.secondaries == b.secondaries) & (a.type != kPut || a.value == b.value); }
inline bool same(const KeyState& a, const KeyState& b) { if (a.recs.size() != b.recs.size() || !same(a.lock, b.lock)) return false; bool r = true; for (size_t i = 0; i < a.recs.size(); ++i) r = r & same(a.recs[i], b.recs[i]); return r; }
// ---- requests
inline store::RegionPtr region;
inline bool has(const pb::store::TxnResultInfo& t) { return t.has_locked() || t.has_write_conflict() || t.has_txn_not_found() || t.has_primary_mismatch() || t.has_commit_ts_expired(); }
struct Mut { int op; std::string key, value; };
struct Prewrite { int64_t ts = 0, ttl = 0, fut = 0, expect = 0, min_commit = 0, max_commit = 0; std::string primary; std::vector<Mut> muts; bool pess = false, async = false, one_pc = false; std::vector<std::string> secondaries;
  pb::store::TxnPrewriteResponse p; bool ok = false;
  bool run() { pb::store::TxnPrewriteRequest q; node::hdr(q, region); int i = 0; for (auto& m : muts) { auto* x = q.add_mutations(); x->set_op((pb::store::Op)m.op); x->set_key(m.key); x->set_value(m.value); if (pess) { q.add_pessimistic_checks(pb::store::TxnPrewriteRequest::DO_PESSIMISTIC_CHECK); auto* c = q.add_for_update_ts_checks(); c->set_index(i); c->set_expected_for_update_ts(expect ? expect : fut); } ++i; }
    q.set_primary_lock(primary); q.set_start_ts(ts); q.set_lock_ttl(ttl); q.set_txn_size(muts.size()); q.set_try_one_pc(one_pc); q.set_min_commit_ts(min_commit); q.set_max_commit_ts(max_commit); q.set_use_async_commit(async); for (auto& s : secondaries) q.add_secondaries(s);
    p.Clear(); node::call(&StoreServiceImpl::TxnPrewrite, q, p); ok = p.error().errcode() == 0 && p.txn_result_size() == 0 && p.keys_already_exist_size() == 0; return ok; } };
struct Commit { int64_t ts = 0, cts = 0; std::vector<std::string> keys; pb::store::TxnCommitResponse p; bool ok = false;
  bool run() { pb::store::TxnCommitRequest q; node::hdr(q, region); q.set_start_ts(ts); q.set_commit_ts(cts); for (auto& k : keys) q.add_keys(k); p.Clear(); node::call(&StoreServiceImpl::TxnCommit, q, p); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct Rollback { int64_t ts = 0; std::vector<std::string> keys; pb::store::TxnBatchRollbackResponse p; bool ok = false;
  bool run() { pb::store::TxnBatchRollbackRequest q; node::hdr(q, region); q.set_start_ts(ts); for (auto& k : keys) q.add_keys(k); p.Clear(); node::call(&StoreServiceImpl::TxnBatchRollback, q, p); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct Status { int64_t ts = 0, caller = 0, now = 0; std::string primary; bool rollback = false, force_sync = false; pb::store::TxnCheckTxnStatusResponse p; bool ok = false;
  bool run() { pb::store::TxnCheckTxnStatusRequest q; node::hdr(q, region); q.set_primary_key(primary); q.set_lock_ts(ts); q.set_caller_start_ts(caller); q.set_current_ts(now); q.set_rollback_if_not_exist(rollback); q.set_force_sync_commit(force_sync); p.Clear(); node::call(&StoreServiceImpl::TxnCheckTxnStatus, q, p); return ok = p.error().errcode() == 0; } };
struct Resolve { int64_t ts = 0, cts = 0; std::vector<std::pair<int64_t, int64_t>> infos; std::vector<std::string> keys; pb::store::TxnResolveLockResponse p; bool ok = false;
  bool run() { pb::store::TxnResolveLockRequest q; node::hdr(q, region); q.set_start_ts(ts); q.set_commit_ts(cts); for (auto& k : keys) q.add_keys(k); for (auto& i : infos) { auto* x = q.add_txn_infos(); x->set_start_ts(i.first); x->set_commit_ts(i.second); } p.Clear(); node::call(&StoreServiceImpl::TxnResolveLock, q, p); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct Secondary { int64_t ts = 0; std::vector<std::string> keys; pb::store::TxnCheckSecondaryLocksResponse p; bool ok = false;
  bool run() { pb::store::TxnCheckSecondaryLocksRequest q; node::hdr(q, region); q.set_start_ts(ts); for (auto& k : keys) q.add_keys(k); p.Clear(); node::call(&StoreServiceImpl::TxnCheckSecondaryLocks, q, p); return ok = p.error().errcode() == 0; } };
struct PLock { int64_t ts = 0, fut = 0, ttl = 0; std::string primary; std::vector<Mut> muts; bool values = false; pb::store::TxnPessimisticLockResponse p; bool ok = false;
  bool run() { pb::store::TxnPessimisticLockRequest q; node::hdr(q, region); for (auto& m : muts) { auto* x = q.add_mutations(); x->set_op((pb::store::Op)m.op); x->set_key(m.key); x->set_value(m.value); } q.set_primary_lock(primary); q.set_start_ts(ts); q.set_lock_ttl(ttl); q.set_for_update_ts(fut); q.set_is_first_lock(false); q.set_return_values(values); p.Clear(); node::call(&StoreServiceImpl::TxnPessimisticLock, q, p); return ok = p.error().errcode() == 0 && p.txn_result_size() == 0; } };
struct PRollback { int64_t ts = 0, fut = 0; std::vector<std::string> keys; pb::store::TxnPessimisticRollbackResponse p; bool ok = false;
  bool run() { pb::store::TxnPessimisticRollbackRequest q; node::hdr(q, region); q.set_start_ts(ts); q.set_for_update_ts(fut); for (auto& k : keys) q.add_keys(k); p.Clear(); node::call(&StoreServiceImpl::TxnPessimisticRollback, q, p); return ok = p.error().errcode() == 0 && p.txn_result_size() == 0; } };
struct Beat { int64_t ts = 0, ttl = 0; std::string primary; pb::store::TxnHeartBeatResponse p; bool ok = false;
  bool run() { pb::store::TxnHeartBeatRequest q; node::hdr(q, region); q.set_primary_lock(primary); q.set_start_ts(ts); q.set_advise_lock_ttl(ttl); p.Clear(); node::call(&StoreServiceImpl::TxnHeartBeat, q, p); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct Get { int64_t ts = 0; std::string key; bool rc = false; std::vector<int64_t> resolved; pb::store::TxnGetResponse p; bool ok = false, locked = false; std::string value;
  bool run() { pb::store::TxnGetRequest q; node::hdr(q, region); if (rc) q.mutable_context()->set_isolation_level(pb::store::ReadCommitted); for (auto r : resolved) q.mutable_context()->add_resolved_locks(r); q.set_start_ts(ts); q.set_key(key); p.Clear(); node::call(&StoreServiceImpl::TxnGet, q, p); locked = p.txn_result().has_locked(); value = p.value(); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct BatchGet { int64_t ts = 0; std::vector<std::string> keys; bool rc = false; std::vector<int64_t> resolved; pb::store::TxnBatchGetResponse p; bool ok = false;
  bool run() { pb::store::TxnBatchGetRequest q; node::hdr(q, region); if (rc) q.mutable_context()->set_isolation_level(pb::store::ReadCommitted); for (auto r : resolved) q.mutable_context()->add_resolved_locks(r); q.set_start_ts(ts); for (auto& k : keys) q.add_keys(k); p.Clear(); node::call(&StoreServiceImpl::TxnBatchGet, q, p); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct Scan { int64_t ts = 0; std::string from, to; int64_t limit = 10; bool rc = false, key_only = false; std::vector<int64_t> resolved; pb::store::TxnScanResponse p; bool ok = false;
  bool run() { pb::store::TxnScanRequest q; node::hdr(q, region); if (rc) q.mutable_context()->set_isolation_level(pb::store::ReadCommitted); for (auto r : resolved) q.mutable_context()->add_resolved_locks(r); q.set_start_ts(ts); q.set_limit(limit); q.set_key_only(key_only); q.mutable_range()->mutable_range()->set_start_key(from); q.mutable_range()->mutable_range()->set_end_key(to); q.mutable_range()->set_with_start(true); p.Clear(); node::call(&StoreServiceImpl::TxnScan, q, p); return ok = p.error().errcode() == 0 && !has(p.txn_result()); } };
struct Gc { int64_t safe = 0; pb::store::TxnGcResponse p; bool ok = false; bool run() { pb::store::TxnGcRequest q; node::hdr(q, region); q.set_safe_point_ts(safe); p.Clear(); node::call(&StoreServiceImpl::TxnGc, q, p); return ok = p.error().errcode() == 0; } };
// ---- an arbitrary state of one key that the protocol can produce
const int64_t kMaxTs = (int64_t)1 << 50;
inline int64_t ts_var(const char* n) { return (int64_t)sym_in(n, 1, kMaxTs); }
inline std::string val(const char* n, bool big) { return sym_str(n, big ? 2 : 1); }   // 2 bytes: stored in the data column family
inline KeyState any_key(const std::string& k, const std::string& primary, int nrec, int lock_kinds, bool big_values, const std::vector<int>* kinds = nullptr) {
  KeyState s; int n = (int)sym_choice("records", nrec + 1);
  for (int i = 0; i < n; ++i) { Rec r; r.op = sym_choice("rec_op", 3) == 0 ? kPut : 0; if (!r.op) r.op = sym_flip("rec_del") ? kDelete : kRollback; r.cts = ts_var("rec_cts"); if (i) sym_assume(r.cts < s.recs.back().cts); if (r.op == kRollback) r.sts = r.cts; else { r.sts = ts_var("rec_sts"); sym_assume(r.sts < r.cts); } for (auto& o : s.recs) sym_assume(o.sts != r.sts); if (r.op == kPut) r.value = val("rec_val", big_values && sym_flip("rec_big")); s.recs.push_back(r); }
  // lock_kinds: 1 none, 2 + Put, 3 + Delete, 4 + pessimistic, 5 + pessimistic then prewritten Put, 6 + async Put
  int lk = kinds ? (*kinds)[sym_choice("lock_kind", (int)kinds->size())] : (int)sym_choice("lock_kind", lock_kinds); Lock& l = s.lock;
  if (lk) { l.on = true; l.ts = ts_var("lock_ts"); l.type = lk == 2 ? kDelete : lk == 3 ? kLock : kPut; l.ttl = (int64_t)sym_in("lock_ttl", 0, (uint64_t)1 << 40); l.async = lk == 5; l.primary = primary; if (l.async && k == primary) l.secondaries = {"x"}; l.min_commit = lk == 5 ? ts_var("lock_min") : sym_fork(sym_bool("lock_has_min")) ? ts_var("lock_min") : 0;
    if (l.min_commit) sym_assume(lk == 5 ? l.min_commit > l.ts : l.min_commit >= 1); if (lk == 3 || lk == 4) { l.fut = ts_var("lock_fut"); sym_assume(l.fut >= l.ts); } if (l.type == kPut) l.value = val("lock_val", big_values && sym_flip("lock_big"));
    for (auto& r : s.recs) { if (!(lk == 3 && r.op == kRollback)) sym_assume(r.sts != l.ts); if (r.op != kRollback) sym_assume(r.cts < l.ts || (l.fut > 0 && r.cts <= l.fut)); else sym_assume(true); } }
  for (auto& r : s.recs) seed_rec(k, r);
  if (l.on) seed_lock(k, l);
  return s; }
}  // namespace txn
