// C16: the vector index of a region against its vectors: the real apply handlers, state machine, index wrapper, build / rebuild / load tasks and log replay.
// The index structure itself (hnswlib, faiss: external libraries) is a map from vector id to vector.
#include "common/role.h"
#include "config/config_manager.h"
#include "region_change.h"
#include "vector/vector_index.h"
#include "vector/vector_index_factory.h"
#include "vector/vector_index_manager.h"
#include "vector/vector_index_snapshot_manager.h"
#include "vector/vector_index_utils.h"
#include "vector/codec.h"
using namespace rc; using namespace dingodb;
typedef std::map<int64_t, float> Vecs;
class MapIndex : public VectorIndex { public: Vecs m; MapIndex(int64_t id, const pb::common::VectorIndexParameter& p, const pb::common::RegionEpoch& e, const pb::common::Range& r) : VectorIndex(id, p, e, r, nullptr) {}
  butil::Status put(const std::vector<pb::common::VectorWithId>& v) { sched_yield_point(); for (size_t i = 0; i < v.size(); ++i) for (size_t j = 0; j < i; ++j) if (v[i].id() == v[j].id()) return butil::Status(pb::error::EVECTOR_INVALID, "duplicate"); /* as VectorIndexFlat */ for (auto& x : v) m[x.id()] = x.vector().float_values(0); return butil::Status(); }
  int32_t GetDimension() override { return 1; } pb::common::MetricType GetMetricType() override { return pb::common::METRIC_TYPE_L2; } bool IsExceedsMaxElements(int64_t) override { return false; }
  butil::Status Add(const std::vector<pb::common::VectorWithId>& v) override { return put(v); } butil::Status Add(const std::vector<pb::common::VectorWithId>& v, bool) override { return put(v); }
  butil::Status Upsert(const std::vector<pb::common::VectorWithId>& v) override { return put(v); } butil::Status Upsert(const std::vector<pb::common::VectorWithId>& v, bool) override { return put(v); }
  butil::Status Delete(const std::vector<int64_t>& d) override { sched_yield_point(); for (auto i : d) m.erase(i); return butil::Status(); } butil::Status Delete(const std::vector<int64_t>& d, bool) override { return Delete(d); }
  butil::Status Search(const std::vector<pb::common::VectorWithId>&, uint32_t, const std::vector<std::shared_ptr<FilterFunctor>>&, bool, const pb::common::VectorSearchParameter&, std::vector<pb::index::VectorWithDistanceResult>&) override { return butil::Status(); }
  butil::Status RangeSearch(const std::vector<pb::common::VectorWithId>&, float, const std::vector<std::shared_ptr<FilterFunctor>>&, bool, const pb::common::VectorSearchParameter&, std::vector<pb::index::VectorWithDistanceResult>&) override { return butil::Status(); }
  void LockWrite() override {} void UnlockWrite() override {} butil::Status Train(std::vector<float>&) override { return butil::Status(); } butil::Status Train(const std::vector<pb::common::VectorWithId>&) override { return butil::Status(); } bool NeedToRebuild() override { return true; } bool NeedToSave(int64_t) override { return false; } };
static std::shared_ptr<MapIndex> snap; static int64_t known = 0; static size_t from = 0; static int way = 0; static std::vector<Vecs> states;
static pb::common::Range range() { pb::common::Range r; r.set_start_key(VectorCodec::PackageVectorKey('r', 7, 0)); r.set_end_key(VectorCodec::PackageVectorKey('r', 7, 9)); return r; }
static VectorIndexWrapperPtr wrap() { return reg(1)->VectorIndexWrapper(); }
static pb::common::VectorWithId vec(int64_t id, float f) { pb::common::VectorWithId v; v.set_id(id); v.mutable_vector()->set_dimension(1); v.mutable_vector()->set_value_type(pb::common::ValueType::FLOAT); v.mutable_vector()->add_float_values(f); return v; }
static void applier(void*) { for (size_t i = from; i < logs[1].size(); ++i) { apply(1, i); known = i + 1; sched_progress(); } }
static void task(void*) { auto w = wrap(); auto job = [&](TaskRunnable& t) { w->IncPendingTaskNum(); t.Run(); };
  if (way == 0) { RebuildVectorIndexTask t(w, 0, false, true, false, ""); w->IncRebuildingNum(); job(t); } else if (way == 1) { LoadOrBuildVectorIndexTask t(w, false, true, 0, ""); w->IncLoadoruildingNum(); job(t); if (!w->IsReady()) sym_cover("no snapshot"); } if (way == 2 || !w->IsReady()) { /* queued by the load */ BuildVectorIndexTask t(w, true, false, 0, ""); w->IncRebuildingNum(); job(t); } }
static void live(Vecs& v) { pb::common::Range e = mvcc::Codec::EncodeRange(range()); auto rd = mvcc::VectorReader::New(st->rawp->Reader()); IteratorOptions o; o.upper_bound = e.end_key(); auto it = rd->NewIterator(Constant::kVectorDataCF, 0, o); for (it->Seek(e.start_key()); it->Valid(); it->Next()) { pb::common::Vector p; if (!p.ParseFromString(std::string(mvcc::Codec::UnPackageValue(it->Value())))) sym_fail("a stored vector can be read"); if (p.float_values_size() > 0) v[VectorCodec::DecodeVectorIdFromEncodeKeyWithTs(std::string(it->Key()))] = p.float_values(0); } }
static Cmd entry(int64_t i, unsigned k, int64_t id, Vecs& now) { bool stale = sym_param("stale", 0) && sym_flip("proposed before the region changed"); if (stale) sym_cover("refused"); Vecs none, &s = stale ? none : now; auto c = ctx(1, stale ? 1 : 2); c->SetCfName(Constant::kVectorDataCF); float f = (float)i; std::vector<pb::common::VectorWithId> v{vec(id, f)}; std::vector<int64_t> d{id}; Cmd g;
  if (k == 0) { s[id] = f; sym_cover("add"); return GenRaftCmdRequest(c, WriteDataBuilder::BuildWrite(c->CfName(), 10 + i, 0, v, true)); }
  if (k == 1) { s.erase(id); sym_cover("delete"); return GenRaftCmdRequest(c, WriteDataBuilder::BuildWrite(c->CfName(), 10 + i, d)); }
  if (k == 2) { pb::common::KeyValue kv; std::string val = v[0].vector().SerializeAsString(); mvcc::Codec::PackageValue(mvcc::ValueFlag::kPut, val); kv.set_key(VectorCodec::EncodeVectorKey('r', 7, id, 10 + i)); kv.set_value(val); s[id] = f; sym_cover("restored"); g = GenRaftCmdRequest(c, WriteDataBuilder::BuildWrite(v, std::vector<pb::common::KeyValue>{kv}, {}, {}, {}, {}, true)); return g; }
  pb::raft::TxnRaftRequest t; auto* m = t.mutable_multi_cf_put_and_delete(); if (k == 3) { *m->mutable_vector_add()->add_vectors() = v[0]; s[id] = f; sym_cover("committed"); } else { m->mutable_vector_del()->add_ids(id); s.erase(id); sym_cover("commit of a delete"); } return GenRaftCmdRequest(c, WriteDataBuilder::BuildWrite(t)); }
extern "C" void harness_main() {
  int n = (int)sym_param("entries", 3), txn = (int)sym_param("txn", 0); way = (int)sym_param("way", 0); mem::Tables none; boot(none, true);
  pb::common::RegionDefinition d; d.set_id(1); d.set_name("v"); *d.mutable_range() = range(); d.set_part_id(7); d.mutable_epoch()->set_version(2); d.mutable_epoch()->set_conf_version(1); d.set_store_engine(pb::common::STORE_ENG_RAFT_STORE); d.set_raw_engine(pb::common::RAW_ENG_ROCKSDB); d.mutable_index_parameter()->set_index_type(pb::common::INDEX_TYPE_VECTOR); d.mutable_index_parameter()->mutable_vector_index_parameter()->set_vector_index_type(pb::common::VECTOR_INDEX_TYPE_HNSW);
  { auto r = store::Region::New(d); r->SetState(pb::common::StoreRegionState::NORMAL); auto m = store::RaftMeta::New(1); node::cur->meta->GetStoreRaftMeta()->AddRaftMeta(m); node::cur->meta->GetStoreRegionMeta()->AddRegion(r); RaftControlAble::AddNodeParameter p; p.raft_meta = m; p.region_metrics = StoreRegionMetrics::NewMetrics(1); p.listeners = StoreSmEventListenerFactory().Build(); node::cur->metrics->GetStoreRegionMetrics()->AddMetrics(p.region_metrics); st->eng->AddNode(r, p); }
  sym_assert(wrap() != nullptr, "a vector region has an index");
  Vecs s; states.push_back(s); for (int i = 1; i <= n; ++i) { unsigned k = txn ? 3 + sym_choice("entry", 2) : sym_choice("entry", 3); int64_t id = 1 + (int64_t)sym_choice("vector", 2); logs[1].push_back(entry(i, k, id, s)); states.push_back(s); }
  size_t all = sym_choice("applied before", (unsigned)n + 1); bool restart = sym_param("restart", 0) && sym_flip("restart"), built = (way == 0 || restart) && sym_flip("an index is already there"); int w0 = way;
  size_t at = built ? sym_choice("built after", (unsigned)all + 1) : 0; for (size_t i = 0; i <= all; ++i) { if (built && at == i) { way = 0; task(nullptr); way = w0; sym_cover("rebuild"); } if (i < all) { apply(1, i); known = i + 1; } } from = all;
  if (restart) { mem::Tables t = st->raw->tabs; boot(t, true); known = from = 0; sym_cover("restart"); }
  if (way == 1) { unsigned k = sym_choice("snapshot at", (unsigned)all + 2); if (k <= all) { snap = std::make_shared<MapIndex>(1, d.index_parameter().vector_index_parameter(), d.epoch(), range()); snap->m = states[k]; snap->SetApplyLogId(k); snap->SetSnapshotLogId(k); sym_cover("snapshot"); } }
  int pre = (int)sym_param("preempt", 0); if (pre > 0) sched_watch(wrap().get(), sizeof(VectorIndexWrapper)); sched_init(pre); sched_spawn(applier, nullptr); sched_spawn(task, nullptr); sched_join_all();
  sym_assert(wrap()->IsReady() && wrap()->GetOwnVectorIndex() != nullptr, "the index is ready once it is built"); Vecs kv; live(kv);
  for (int64_t id = 1; id <= 2; ++id) { auto& m = static_cast<MapIndex*>(wrap()->GetOwnVectorIndex().get())->m; bool in = s.count(id) > 0; sym_assert((kv.count(id) > 0) == in && (!in || kv[id] == s[id]), "the stored vectors are the ones which were written and not deleted"); if (in) { sym_assert(m.count(id) > 0, "every stored vector is in the index"); sym_assert(m[id] == s[id], "the index has the last value of a vector"); sym_cover("in"); } else { sym_assert(m.count(id) == 0, "a deleted vector is not in the index"); sym_cover("out"); } }
  sym_assert(wrap()->ApplyLogId() <= n, "the index does not claim log entries it has not seen"); sym_assert(wrap()->PendingTaskNum() == 0 && wrap()->RebuildingNum() == 0 && wrap()->LoadorbuildingNum() == 0, "no task is left over");
}
DEFINE_int32(vector_background_worker_num, 1, ""); DEFINE_int32(vector_fast_background_worker_num, 1, "");
namespace dingodb {
std::shared_ptr<VectorIndex> VectorIndexFactory::New(int64_t id, const pb::common::VectorIndexParameter& p, const pb::common::RegionEpoch& e, const pb::common::Range& r) { return std::make_shared<MapIndex>(id, p, e, r); }
butil::Status VectorIndexUtils::SplitVectorScalarData(const pb::common::ScalarSchema&, const pb::common::VectorScalardata&, std::vector<std::pair<std::string, pb::common::ScalarValue>>&) { return butil::Status(); }
VectorIndexPtr VectorIndexSnapshotManager::LoadVectorIndexSnapshot(VectorIndexWrapperPtr, const pb::common::RegionEpoch&) { sched_yield_point(); return snap; } butil::Status VectorIndexSnapshotManager::SaveVectorIndexSnapshot(VectorIndexWrapperPtr, int64_t& id) { sched_yield_point(); id = 0; return butil::Status(); } std::vector<std::string> VectorIndexSnapshotManager::GetSnapshotList(int64_t) { return {}; } std::string VectorIndexSnapshotManager::GetSnapshotParentPath(int64_t) { return "p"; } butil::Status VectorIndexSnapshotManager::PullLastSnapshotFromPeers(vector_index::SnapshotMetaSetPtr, const pb::common::RegionEpoch&) { return butil::Status(); }
std::shared_ptr<pb::common::BRaftStatus> RaftNode::GetStatus() { sched_yield_point(); auto s = std::make_shared<pb::common::BRaftStatus>(); s->set_known_applied_index(known); return s; }
store::RaftMetaPtr Server::GetRaftMeta(int64_t id) { return node::cur->meta->GetStoreRaftMeta()->GetRaftMeta(id); } std::shared_ptr<MetaReader> Server::GetMetaReader() { return std::make_shared<MetaReader>(st->rawp); } std::shared_ptr<MetaWriter> Server::GetMetaWriter() { return std::make_shared<MetaWriter>(st->rawp); } RawEnginePtr Server::GetRawEngine(pb::common::RawEngine) { return st->rawp; }
alignas(16) static char mgr_mem[sizeof(VectorIndexManager)]; VectorIndexManagerPtr Server::GetVectorIndexManager() { return std::shared_ptr<VectorIndexManager>(std::shared_ptr<void>(), reinterpret_cast<VectorIndexManager*>(mgr_mem)); }
bool Server::IsLeader(int64_t) { return st->leader; }
alignas(16) static char cfg_mem[sizeof(ConfigManager)]; ConfigManager& ConfigManager::GetInstance() { return *reinterpret_cast<ConfigManager*>(cfg_mem); } std::shared_ptr<Config> ConfigManager::GetRoleConfig() { return nullptr; }
}  // namespace dingodb
