// The coordinator's versioned key-value store: the real request functions, propose path, state machine and KvControl, over one
// leader and one follower; the replicated log is the harness's (braft is outside the repository).
#pragma once
#include "coordinator/kv_control.h"
#include "engine/raft_store_engine.h"
#include "engine/write_data.h"
#include "mem_engine.h"
#include "raft/meta_state_machine.h"
#include "server/service_helper.h"
#include "server/version_service.h"
#include "sym.h"
namespace dingodb {
void DoLeaseRevoke(google::protobuf::RpcController*, const pb::version::LeaseRevokeRequest*, pb::version::LeaseRevokeResponse*, TrackClosure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoLeaseGrant(google::protobuf::RpcController*, const pb::version::LeaseGrantRequest*, pb::version::LeaseGrantResponse*, TrackClosure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoLeaseRenew(google::protobuf::RpcController*, const pb::version::LeaseRenewRequest*, pb::version::LeaseRenewResponse*, TrackClosure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoLeaseQuery(google::protobuf::RpcController*, const pb::version::LeaseQueryRequest*, pb::version::LeaseQueryResponse*, google::protobuf::Closure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoListLeases(google::protobuf::RpcController*, const pb::version::ListLeasesRequest*, pb::version::ListLeasesResponse*, google::protobuf::Closure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoKvRange(google::protobuf::RpcController*, const pb::version::RangeRequest*, pb::version::RangeResponse*, google::protobuf::Closure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoKvPut(google::protobuf::RpcController*, const pb::version::PutRequest*, pb::version::PutResponse*, TrackClosure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoKvDeleteRange(google::protobuf::RpcController*, const pb::version::DeleteRangeRequest*, pb::version::DeleteRangeResponse*, TrackClosure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoKvCompaction(google::protobuf::RpcController*, const pb::version::CompactionRequest*, pb::version::CompactionResponse*, google::protobuf::Closure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
void DoWatch(google::protobuf::RpcController*, const pb::version::WatchRequest*, pb::version::WatchResponse*, google::protobuf::Closure*, std::shared_ptr<KvControl>, std::shared_ptr<Engine>);
}  // namespace dingodb
extern "C" { extern int64_t shim_clock_us; extern int64_t shim_clock_step_us; }
namespace kvc {
using namespace dingodb;
struct Done : public TrackClosure { int runs = 0; Done() : TrackClosure(nullptr) {} void Run() override { ++runs; sched_wake(this, 1); } };
struct Rep { std::shared_ptr<mem::Engine> raw; std::shared_ptr<KvControl> kv; std::shared_ptr<MetaStateMachine> sm;
  void boot() { kv = std::make_shared<KvControl>(std::make_shared<MetaReader>(raw), std::make_shared<MetaWriter>(raw), raw); sm = std::make_shared<MetaStateMachine>(1, kv); sym_assert(kv->Recover(), "recovery from disk"); } };
struct Entry { int64_t term, index; std::shared_ptr<pb::raft::RaftCmdRequest> cmd; google::protobuf::Message* resp; bool done; };
class KEng;
inline Rep lead, foll; inline std::shared_ptr<KEng> eng; inline std::vector<Entry> rlog; inline int64_t term = 1; inline size_t applied = 0; inline bool threaded = false, refuse = false;
inline void apply_one() { Entry& e = rlog[applied]; lead.sm->DispatchRequest(true, e.term, e.index, *e.cmd, e.resp); if (foll.sm) foll.sm->DispatchRequest(false, e.term, e.index, *e.cmd, nullptr); e.done = true; ++applied; }
class KEng : public RaftStoreEngine { public: using RaftStoreEngine::RaftStoreEngine;
  butil::Status Write(std::shared_ptr<Context> c, std::shared_ptr<WriteData> d) override { sched_yield_point(); if (refuse) return butil::Status(pb::error::ERAFT_NOTLEADER, "not leader"); size_t i = rlog.size(); rlog.push_back({term, (int64_t)i + 1, GenRaftCmdRequest(c, d), c->Response(), false});
    if (!threaded) apply_one(); else { sched_wake(&rlog, 1); while (!rlog[i].done) sched_block(&rlog[i].done); } return butil::Status(); } };
inline void lead_start() { lead.sm->on_leader_start(term); lead.kv->LeaseTask(); }
inline void make(bool follower) { rlog.clear(); rlog.reserve(64); applied = 0; lead.raw = std::make_shared<mem::Engine>(); lead.boot(); if (follower) { foll.raw = std::make_shared<mem::Engine>(); foll.boot(); } eng = std::make_shared<KEng>(lead.raw, nullptr, nullptr); lead.kv->SetKvEngine(eng); lead_start(); }
inline void restart(const mem::Tables& t) { lead.raw->tabs = t; lead.raw->crash_at = -1; lead.boot(); lead.kv->SetKvEngine(eng); }
inline bool same_tables(const std::shared_ptr<mem::Engine>& a, const std::shared_ptr<mem::Engine>& b) { auto x = a->tabs.get(Constant::kStoreMetaCF), y = b->tabs.get(Constant::kStoreMetaCF); if (x->size() != y->size()) return false; bool r = true; for (size_t i = 0; i < x->size(); ++i) r = r & ((*x)[i].first == (*y)[i].first) & ((*x)[i].second == (*y)[i].second); return r; }
// ---- requests
struct Kv { std::string key, val; int64_t create = 0, mod = 0, ver = 0, lease = 0; };
inline Kv conv(const pb::version::Kv& k) { Kv r; r.key = k.kv().key(); r.val = k.kv().value(); r.create = k.create_revision(); r.mod = k.mod_revision(); r.ver = k.version(); r.lease = k.lease(); return r; }
inline bool same(const Kv& a, const Kv& b, bool keys_only = false) { return (a.key == b.key) & (keys_only | (a.val == b.val)) & (a.create == b.create) & (a.mod == b.mod) & (a.ver == b.ver) & (a.lease == b.lease); }
template <class R> inline bool okay(const R& p) { return p.error().errcode() == pb::error::OK; }
struct Put { std::string key, val; int64_t lease = 0; bool prev = false, ign_val = false, ign_lease = false, ok = false; int64_t rev = 0; Kv old;
  void run() { pb::version::PutRequest q; pb::version::PutResponse p; q.mutable_key_value()->set_key(key); if (!ign_val) q.mutable_key_value()->set_value(val); q.set_lease(lease); q.set_need_prev_kv(prev); q.set_ignore_value(ign_val); q.set_ignore_lease(ign_lease); Done d; DoKvPut(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); rev = p.header().revision(); old = conv(p.prev_kv()); } };
struct Del { std::string key, end; bool prev = false, ok = false; int64_t n = 0, rev = 0; std::vector<Kv> old;
  void run() { pb::version::DeleteRangeRequest q; pb::version::DeleteRangeResponse p; q.set_key(key); q.set_range_end(end); q.set_need_prev_kv(prev); Done d; DoKvDeleteRange(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); n = p.deleted(); rev = p.header().revision(); old.clear(); for (auto& k : p.prev_kvs()) old.push_back(conv(k)); } };
struct Range { std::string key, end; int64_t limit = 0; bool keys_only = false, count_only = false, ok = false, more = false; int64_t count = 0; std::vector<Kv> kvs;
  void run() { pb::version::RangeRequest q; pb::version::RangeResponse p; q.set_key(key); q.set_range_end(end); q.set_limit(limit); q.set_keys_only(keys_only); q.set_count_only(count_only); Done d; DoKvRange(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); more = p.more(); count = p.count(); kvs.clear(); for (auto& k : p.kvs()) kvs.push_back(conv(k)); } };
struct Compact { std::string key, end; int64_t rev = 0; bool ok = false;
  void run() { pb::version::CompactionRequest q; pb::version::CompactionResponse p; q.set_key(key); q.set_range_end(end); q.set_compact_revision(rev); Done d; DoKvCompaction(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); } };
struct Grant { int64_t id = 0, ttl = 100, got = 0, got_ttl = 0; bool ok = false;
  void run() { pb::version::LeaseGrantRequest q; pb::version::LeaseGrantResponse p; q.set_id(id); q.set_ttl(ttl); Done d; DoLeaseGrant(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); got = p.id(); got_ttl = p.ttl(); } };
struct Renew { int64_t id = 0, ttl = 0; bool ok = false;
  void run() { pb::version::LeaseRenewRequest q; pb::version::LeaseRenewResponse p; q.set_id(id); Done d; DoLeaseRenew(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); ttl = p.ttl(); } };
struct Revoke { int64_t id = 0; bool ok = false;
  void run() { pb::version::LeaseRevokeRequest q; pb::version::LeaseRevokeResponse p; q.set_id(id); Done d; DoLeaseRevoke(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); } };
struct Query { int64_t id = 0, ttl = 0, granted = 0; bool ok = false; std::vector<std::string> keys;
  void run() { pb::version::LeaseQueryRequest q; pb::version::LeaseQueryResponse p; q.set_id(id); q.set_keys(true); Done d; DoLeaseQuery(nullptr, &q, &p, &d, lead.kv, eng); sym_assert(d.runs == 1, "every request is answered once"); ok = okay(p); ttl = p.ttl(); granted = p.grantedttl(); keys.clear(); for (auto& k : p.keys()) keys.push_back(k); } };
// ---- what the store should hold
struct Model { std::vector<Kv> kv; std::vector<int64_t> leases; int64_t rev = 10000;   // kv sorted by key
  size_t at(const std::string& k) const { size_t i = 0; while (i < kv.size() && kv[i].key < k) ++i; return i; }
  Kv* find(const std::string& k) { size_t i = at(k); return i < kv.size() && kv[i].key == k ? &kv[i] : nullptr; }
  bool has_lease(int64_t l) const { for (auto x : leases) if (x == l) return true; return false; }
  static bool in(const std::string& k, const std::string& a, const std::string& e) { if (e.empty()) return k == a; if (e == std::string(1, '\0')) return k >= a; return k >= a && k < e; } };
inline void check_range(const Model& m, const std::string& a, const std::string& e, int64_t limit, bool ko, bool co, const char* what) {
  Range r; r.key = a; r.end = e; r.limit = limit; r.keys_only = ko; r.count_only = co; r.run(); sym_assert(r.ok, what); std::vector<Kv> want; bool more = false; for (auto& k : m.kv) if (Model::in(k.key, a, e)) { if (limit > 0 && (int64_t)want.size() >= limit) { more = true; break; } want.push_back(k); }
  sym_assert(r.more == more, what); sym_assert(r.count == (int64_t)want.size(), "the count is the number of keys found"); if (co) { sym_assert(r.kvs.empty(), what); return; }
  sym_assert(r.kvs.size() == want.size(), what); bool t = true; for (size_t i = 0; i < want.size(); ++i) t = t & same(r.kvs[i], want[i], ko); sym_assert(t, what); }
}  // namespace kvc
namespace dingodb { RaftNodeManager::RaftNodeManager() {} RaftNodeManager::~RaftNodeManager() {} }
