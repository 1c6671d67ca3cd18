// A store that replays the logs of its regions: the real state machines, apply handlers (split, merge, put) and region metadata on the in-memory engine.
#pragma once
#include <memory>
#include "common/constant.h"
#include "common/context.h"
#include "engine/raft_store_engine.h"
#include "engine/write_data.h"
#include "handler/raft_apply_handler.h"
#include "log/rocks_log_storage.h"
#include "mvcc/codec.h"
#include "mvcc/ts_provider.h"
#include "node.h"
#include "raft/raft_node.h"
#include "raft/store_state_machine.h"
#include "store/heartbeat.h"
#include "store/region_controller.h"
#include "symsched.h"
namespace rc { using namespace dingodb;
typedef std::shared_ptr<pb::raft::RaftCmdRequest> Cmd;
typedef std::vector<Cmd> Log; inline Log logs[4];   // committed entries of region i, index 1 ... (shared by all stores)
struct Rn { int64_t id; store::RegionPtr region; std::shared_ptr<StoreStateMachine> sm; };
class REng; struct Store { mem::Engine* raw; std::shared_ptr<mem::Engine> rawp; std::vector<Rn> rn; std::shared_ptr<REng> eng; bool leader = false; };
inline Store* st = nullptr; inline int snap_fail = 0; 
inline Rn* rn(int64_t id) { for (auto& r : st->rn) if (r.id == id) return &r; return nullptr; }
inline int64_t proposed = 0; inline mvcc::TsProviderPtr tsp;
class REng : public RaftStoreEngine { public: using RaftStoreEngine::RaftStoreEngine;
  butil::Status AddNode(store::RegionPtr region, const AddNodeParameter& p) override { if (rn(region->Id())) return butil::Status(pb::error::ERAFT_INIT, "node exists"); auto sm = std::make_shared<StoreStateMachine>(st->rawp, region, p.raft_meta, p.region_metrics, p.listeners, nullptr); st->rn.push_back({region->Id(), region, sm}); return butil::Status(); }
  butil::Status AyncSaveSnapshot(std::shared_ptr<Context> c, int64_t, bool) override { if (snap_fail > 0) { --snap_fail; return butil::Status(pb::error::EINTERNAL, "busy"); } auto* d = c->Done(); d->Run(); return butil::Status(); }
  butil::Status AsyncWrite(std::shared_ptr<Context> c, std::shared_ptr<WriteData> d) override { if (!st->leader) return butil::Status(pb::error::ERAFT_NOTLEADER, ""); ++proposed; logs[c->RegionId()].push_back(GenRaftCmdRequest(c, d)); sched_progress(); return butil::Status(); } };
inline void boot(mem::Tables tabs, bool leader) { auto ts = mvcc::TsProviderPtr(); tsp = mvcc::TsProvider::New(nullptr); node::Node* n = node::make(ts); n->raw->tabs = tabs; st = new Store; st->rawp = n->raw; st->raw = n->raw.get(); st->leader = leader; st->eng = std::make_shared<REng>(n->raw, nullptr, ts); n->storage = std::make_shared<Storage>(st->eng, n->eng, ts);
  auto q = std::make_shared<mem::Engine>(); n->meta->region_change_recorder_ = std::make_shared<RegionChangeRecorder>(std::make_shared<MetaReader>(q), std::make_shared<MetaWriter>(q)); q->quiet = true; mem::on_write = sched_progress;
  if (!n->meta->GetStoreRaftMeta()->Init() || !n->meta->GetStoreRegionMeta()->Init()) sym_fail("the metadata of the store can be read");
for (auto& r : n->meta->GetStoreRegionMeta()->GetAllRegion()) n->metrics->GetStoreRegionMetrics()->AddMetrics(StoreRegionMetrics::NewMetrics(r->Id()));
  if (!st->eng->Recover()) sym_fail("the store starts again"); }
inline void create(int64_t id, const std::string& a, const std::string& b, pb::common::StoreRegionState s, int64_t version = 1) { pb::common::RegionDefinition d; d.set_id(id); d.set_name("r"); d.mutable_range()->set_start_key(a); d.mutable_range()->set_end_key(b); d.mutable_epoch()->set_version(version); d.mutable_epoch()->set_conf_version(1); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB);
  auto r = store::Region::New(d); r->SetState(s); auto m = store::RaftMeta::New(id); node::cur->meta->GetStoreRaftMeta()->AddRaftMeta(m); node::cur->meta->GetStoreRegionMeta()->AddRegion(r); RaftControlAble::AddNodeParameter p; p.raft_meta = m; p.region_metrics = StoreRegionMetrics::NewMetrics(id); p.listeners = StoreSmEventListenerFactory().Build(); node::cur->metrics->GetStoreRegionMetrics()->AddMetrics(p.region_metrics); st->eng->AddNode(r, p); }
inline pb::common::RegionEpoch ep(int64_t v) { pb::common::RegionEpoch e; e.set_version(v); e.set_conf_version(1); return e; }
inline std::shared_ptr<Context> ctx(int64_t id, int64_t v) { auto c = std::make_shared<Context>(); c->SetRegionId(id); c->SetRegionEpoch(ep(v)); c->SetCfName(Constant::kStoreDataCF); return c; }
inline Cmd put(int64_t id, int64_t v, const std::string& k, const std::string& val, int64_t ts) { pb::common::KeyValue kv; std::string pv; mvcc::Codec::PackageValue(mvcc::ValueFlag::kPut, val, pv); kv.set_key(mvcc::Codec::EncodeKey(k, ts)); kv.set_value(pv); std::vector<pb::common::KeyValue> kvs{kv}; return GenRaftCmdRequest(ctx(id, v), WriteDataBuilder::BuildWrite(std::string(Constant::kStoreDataCF), kvs, ts)); }
inline void apply(int64_t id, size_t i) { Rn* r = rn(id); if (!r) sym_fail("the region is there"); braft::LogEntry e; e.id.index = i + 1; e.id.term = 1; butil::IOBufAsZeroCopyOutputStream w(&e.data); logs[id][i]->SerializeToZeroCopyStream(&w); std::vector<braft::LogEntry*> v{&e}; std::vector<braft::Closure*> d; braft::Iterator it(&v, &d); auto sm = r->sm; sm->on_apply(it); }
inline bool find(const std::string& k, int64_t ts, std::string& out) { std::string e = mvcc::Codec::EncodeKey(k, ts); auto t = st->raw->tabs.get(Constant::kStoreDataCF); for (auto& x : *t) if (x.first == e) { mvcc::ValueFlag f; int64_t ttl; out = std::string(mvcc::Codec::UnPackageValue(x.second, f, ttl)); return true; } return false; }
inline store::RegionPtr reg(int64_t id) { return node::cur->meta->GetStoreRegionMeta()->GetRegion(id); }
}  // namespace rc
extern "C" int bthread_usleep(uint64_t) { sched_pause(); return 0; }
DEFINE_int32(init_election_timeout_ms, 1000, "");
namespace dingodb {
std::shared_ptr<Engine> Server::GetEngine(pb::common::StorageEngine) { return rc::st->eng; } std::shared_ptr<RaftStoreEngine> Server::GetRaftStoreEngine() { return rc::st->eng; } std::shared_ptr<Storage> Server::GetStorage() { return node::cur->storage; } WorkerSetPtr Server::GetApplyWorkerSet() { return nullptr; }
alignas(16) static char ctl_mem[64]; std::shared_ptr<RegionController> Server::GetRegionController() { return std::shared_ptr<RegionController>(std::shared_ptr<void>(), reinterpret_cast<RegionController*>(ctl_mem)); } bool RegionController::RegisterExecutor(int64_t) { return true; }
butil::EndPoint Server::RaftEndpoint() { return {}; } std::string Server::GetRaftPath() { return "p"; } void Heartbeat::TriggerStoreHeartbeat(std::vector<int64_t>, bool) {} mvcc::TsProviderPtr Server::GetTsProvider() { return rc::tsp; }
wal::LogStoragePtr Server::GetRaftLogStorage() { return std::shared_ptr<wal::RocksLogStorage>(std::shared_ptr<void>(), reinterpret_cast<wal::RocksLogStorage*>(ctl_mem)); }
std::vector<wal::LogEntryPtr> wal::RocksLogStorage::GetDataEntries(int64_t id, int64_t a, int64_t b) { std::vector<LogEntryPtr> v; for (int64_t i = a; i < b && i <= (int64_t)rc::logs[id].size(); ++i) { auto e = LogEntry::New(); e->index = i; e->term = 1; e->region_id = id; rc::logs[id][i - 1]->SerializeToString(&e->out_data); v.push_back(e); } return v; }
alignas(16) static char node_mem[4][sizeof(RaftNode)]; RaftNodeManager::RaftNodeManager() {} RaftNodeManager::~RaftNodeManager() {}
std::shared_ptr<RaftNode> RaftNodeManager::GetNode(int64_t id) { if (!rc::rn(id)) return nullptr; return std::shared_ptr<RaftNode>(std::shared_ptr<void>(), reinterpret_cast<RaftNode*>(node_mem[id])); }
std::shared_ptr<BaseStateMachine> RaftNode::GetStateMachine() { for (int i = 0; i < 4; ++i) if ((char*)this == node_mem[i]) return rc::rn(i)->sm; return nullptr; } bool RaftNode::IsLeader() { return rc::st->leader; } butil::Status RaftNode::Snapshot(std::shared_ptr<Context> c, bool) { if (c->Done()) c->Done()->Run(); return butil::Status(); }
}  // namespace dingodb
