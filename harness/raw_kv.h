// Raw key-value requests against one store node on either replicated engine, and the model they are compared with.
#pragma once
#include "common/constant.h"
#include "engine/raft_store_engine.h"
#include "mvcc/codec.h"
#include "mvcc/ts_provider.h"
#include "node.h"
#include "symsched.h"
extern "C" int64_t shim_clock_us, shim_clock_step_us;
namespace raw { using namespace dingodb; using mvcc::Codec; using mvcc::ValueFlag;
inline int64_t tso = 1000, tso_step = 1; inline bool tso_down = false, leader = true, readable = true;
class REng; struct World { node::Node* n; std::shared_ptr<REng> reng; };
inline node::Node*& nd() { return node::cur; }
// the replicated engine: a proposed write is applied as soon as it is committed; it can be refused or cut off
class REng : public RaftStoreEngine { public: using RaftStoreEngine::RaftStoreEngine; int tries = 0, fail_one = -1; std::shared_ptr<EventListenerCollection> l;
  butil::Status Write(std::shared_ptr<Context> c, std::shared_ptr<WriteData> d) override { ++tries; if (!leader || tries == fail_one) return butil::Status(pb::error::ERAFT_NOTLEADER, "not leader");
    auto r = Server::GetInstance().GetRegion(c->RegionId()); auto e = std::make_shared<SmApplyEvent>(); e->region = r; e->engine = GetRawEngine(r->GetRawEngineType()); e->ctx = c; e->raft_cmd = GenRaftCmdRequest(c, d); e->region_metrics = nd()->metrics->GetStoreRegionMetrics()->GetMetrics(r->Id()); e->term_id = 1; e->log_id = tries; for (auto& x : l->Get(EventType::kSmApply)) if (x->OnEvent(e) != 0) return butil::Status(pb::error::EINTERNAL, ""); return c->Status().ok() ? butil::Status() : c->Status(); } };
inline World w; inline store::RegionPtr region; inline int engine = 0;
alignas(16) inline char ts_mem[sizeof(mvcc::TsProvider)]; alignas(16) inline char raft_node_mem[sizeof(RaftNode)];
inline store::RegionPtr add_region(int64_t id, const std::string& a, const std::string& b) { auto r = node::add_region(*w.n, id, a, b); if (engine) { auto d = r->Definition(); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); auto q = store::Region::New(d); q->SetState(pb::common::StoreRegionState::NORMAL); w.n->meta->GetStoreRegionMeta()->DeleteRegion(id); w.n->meta->GetStoreRegionMeta()->AddRegion(q); return q; } return r; }
inline void make(int eng) { engine = eng; mvcc::TsProviderPtr ts(std::shared_ptr<void>(), reinterpret_cast<mvcc::TsProvider*>(ts_mem)); w.n = node::make(ts); auto h = RaftApplyHandlerFactory().Build(); w.reng = std::make_shared<REng>(w.n->raw, nullptr, ts); w.reng->l = std::make_shared<EventListenerCollection>(); w.reng->l->Register(std::make_shared<SmApplyEventListener>(h));
  w.n->storage = std::make_shared<Storage>(w.reng, w.n->eng, ts); w.n->svc->SetStorage(w.n->storage); region = add_region(1, "b", "d"); }
// ---- stored versions
struct Ver { int64_t ts; int flag; int64_t ttl; std::string val; };
typedef std::vector<Ver> Hist;   // newest first
inline const std::string& CF() { return Constant::kStoreDataCF; }
inline void seed(const std::string& k, const Hist& h) { for (auto& v : h) { std::string val; if (v.flag == 0) Codec::PackageValue(ValueFlag::kPut, v.val, val); else if (v.flag == 1) Codec::PackageValue(ValueFlag::kPutTTL, v.ttl, v.val, val); else Codec::PackageValue(ValueFlag::kDelete, val); w.n->raw->tabs.mut(CF()).push_back({Codec::EncodeKey(k, v.ts), val}); } }   // called in key order
inline int64_t be(const std::string& s, size_t at) { uint64_t v = 0; for (size_t i = 0; i < 8; ++i) v = (v << 8) | (uint8_t)s[at + i]; return (int64_t)v; }
inline Hist look(const std::string& k) { Hist h; std::string p = Codec::EncodeKey(k, 1); p.resize(p.size() - 8);
  for (auto& e : *w.n->raw->tabs.get(CF())) if (e.first.size() == p.size() + 8 && e.first.compare(0, p.size(), p) == 0) { Ver v; v.ts = ~be(e.first, p.size()); v.ttl = 0; ValueFlag f; int64_t ttl = 0; std::string_view s = Codec::UnPackageValue(e.second, f, ttl); v.flag = f == ValueFlag::kPut ? 0 : f == ValueFlag::kPutTTL ? 1 : 2; if (v.flag == 1) v.ttl = ttl; if (v.flag != 2) v.val = std::string(s); h.push_back(v); } return h; }
inline bool same(const Ver& a, const Ver& b) { return (a.ts == b.ts) & (a.flag == b.flag) & (a.ttl == b.ttl) & (a.val == b.val); }
inline bool same(const Hist& a, const Hist& b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r = r & same(a[i], b[i]); return r; }
inline int64_t now_ms() { return shim_clock_us / 1000; }
inline const Ver* visible(const Hist& h, int64_t ts) { int64_t lim = ts > 0 ? ts : INT64_MAX; for (auto& v : h) { if (v.ts > lim) continue; if (v.flag == 2 || (v.flag == 1 && v.ttl < now_ms())) return nullptr; return &v; } return nullptr; }
}  // namespace raw
namespace dingodb { std::string Server::ServerAddr() { return "s"; } std::string Server::GetClusterReadOnlyReason() { return "r"; } int64_t mvcc::TsProvider::GetTs(int64_t after) { sched_yield_point(); if (raw::tso_down) return 0; raw::tso += raw::tso_step; return raw::tso; }
RaftNodeManager::RaftNodeManager() {} RaftNodeManager::~RaftNodeManager() {}
std::shared_ptr<RaftNode> RaftNodeManager::GetNode(int64_t) { return std::shared_ptr<RaftNode>(std::shared_ptr<void>(), reinterpret_cast<RaftNode*>(raw::raft_node_mem)); }
bool RaftNode::IsLeader() { return raw::leader; } bool RaftNode::ConsistentReadable() { return raw::readable; } braft::PeerId RaftNode::GetLeaderId() { return {}; } }  // namespace dingodb
