// One store node: the real service handlers, storage layer, engine helpers, apply handlers and region metadata over the in-memory raw engine.
#pragma once
#include <new>
#include "brpc/controller.h"
#include "common/runnable.h"
#include "engine/mono_store_engine.h"
#include "engine/storage.h"
#include "event/store_state_machine_event.h"
#include "handler/raft_apply_handler.h"
#include "mem_engine.h"
#include "meta/meta_reader.h"
#include "meta/meta_writer.h"
#include "meta/store_meta_manager.h"
#include "metrics/store_metrics_manager.h"
#include "server/server.h"
#include "server/store_service.h"
#include "sym.h"
namespace node {
using namespace dingodb;
// the engine, whose replicated writes can be refused (not the leader any more) or cut off (crash)
class Eng : public MonoStoreEngine { public: using MonoStoreEngine::MonoStoreEngine; int tries = 0, fail_after = -1, fail_one = -1; butil::Status Write(std::shared_ptr<Context> c, std::shared_ptr<WriteData> d) override { ++tries; if ((fail_after >= 0 && tries > fail_after) || tries == fail_one) return butil::Status(pb::error::ERAFT_NOTLEADER, "not leader"); return MonoStoreEngine::Write(c, d); } };
struct Node { std::shared_ptr<mem::Engine> raw; std::shared_ptr<StoreMetaManager> meta; std::shared_ptr<StoreMetricsManager> metrics; std::shared_ptr<Eng> eng; StoragePtr storage; StoreServiceImpl* svc = nullptr; bool read_only = false; StreamManagerPtr streams = StreamManager::New(); };
inline Node* cur = nullptr;
alignas(16) inline char server_mem[sizeof(Server)];
class Inline : public WorkerSet { public: Inline() : WorkerSet("inline", 1, 0, false, true) {} bool Init() override { return true; } void Destroy() override {} bool Run(TaskRunnablePtr t) { t->Run(); return true; } bool Execute(TaskRunnablePtr t) override { return Run(t); } bool ExecuteRR(TaskRunnablePtr t) override { return Run(t); } bool ExecuteLeastQueue(TaskRunnablePtr t) override { return Run(t); } bool ExecuteHashByRegionId(int64_t, TaskRunnablePtr t) override { return Run(t); } };
struct Done : google::protobuf::Closure { int n = 0; void Run() override { ++n; } };
inline store::RegionPtr add_region(Node& n, int64_t id, const std::string& s, const std::string& e) {
  pb::common::RegionDefinition d; d.set_id(id); d.mutable_range()->set_start_key(s); d.mutable_range()->set_end_key(e); d.mutable_epoch()->set_version(1); d.mutable_epoch()->set_conf_version(1); d.set_store_engine(pb::common::STORE_ENG_MONO_STORE); d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB);
  auto r = store::Region::New(d); n.meta->GetStoreRegionMeta()->DeleteRegion(id); n.meta->GetStoreRegionMeta()->AddRegion(r); r->SetState(pb::common::StoreRegionState::NORMAL); n.metrics->GetStoreRegionMetrics()->AddMetrics(StoreRegionMetrics::NewMetrics(id)); return r; }
inline Node* make(mvcc::TsProviderPtr ts = nullptr) {
  Node* n = new Node; n->raw = std::make_shared<mem::Engine>(); auto mr = std::make_shared<MetaReader>(n->raw); auto mw = std::make_shared<MetaWriter>(n->raw); n->meta = std::make_shared<StoreMetaManager>(mr, mw); n->metrics = std::make_shared<StoreMetricsManager>(mr, mw);
  auto h = RaftApplyHandlerFactory().Build(); auto l = std::make_shared<EventListenerCollection>(); l->Register(std::make_shared<SmApplyEventListener>(h));
  n->eng = std::make_shared<Eng>(n->raw, nullptr, l, ts, n->meta, n->metrics); n->storage = std::make_shared<Storage>(nullptr, n->eng, ts); n->svc = new StoreServiceImpl; n->svc->SetStorage(n->storage); n->svc->SetReadWorkSet(std::make_shared<Inline>()); n->svc->SetWriteWorkSet(std::make_shared<Inline>()); cur = n; return n; }
template <class Q> void hdr(Q& q, const store::RegionPtr& r) { auto* c = q.mutable_context(); c->set_region_id(r->Id()); *c->mutable_region_epoch() = r->Epoch(); c->set_isolation_level(pb::store::SnapshotIsolation); }
template <class Q, class R> void call(void (StoreServiceImpl::*m)(google::protobuf::RpcController*, const Q*, R*, google::protobuf::Closure*), const Q& q, R& r) { brpc::Controller c; Done d; (cur->svc->*m)(&c, &q, &r, &d); if (d.n != 1) sym_fail("every request is answered exactly once"); }
}  // namespace node
namespace dingodb {
Server& Server::GetInstance() { return *reinterpret_cast<Server*>(node::server_mem); }
store::RegionPtr Server::GetRegion(int64_t id) { return node::cur->meta->GetStoreRegionMeta()->GetRegion(id); }
std::shared_ptr<StoreMetaManager> Server::GetStoreMetaManager() { return node::cur->meta; }
std::shared_ptr<StoreMetricsManager> Server::GetStoreMetricsManager() { return node::cur->metrics; }
StreamManagerPtr Server::GetStreamManager() { return node::cur->streams; }
int64_t Server::Id() const { return 1; }
bool Server::IsClusterReadOnlyOrForceReadOnly() const { return node::cur->read_only; }
bool Server::IsClusterReadOnly() const { return node::cur->read_only; }
}  // namespace dingodb
