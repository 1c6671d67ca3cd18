// An ordered in-memory storage engine behind the real RawEngine interface (RocksDB itself is outside this repository).
#pragma once
#include <map>
#include <memory>
#include <string>
#include <vector>
#include "engine/raw_engine.h"
#include "sym.h"
#include "symsched.h"
namespace mem {
using namespace dingodb;
typedef std::vector<std::pair<std::string, std::string>> Table;   // sorted by key
typedef std::shared_ptr<Table> TableP;
struct Tables { std::map<std::string, TableP> t; Table& mut(const std::string& cf) { auto& p = t[cf]; if (!p) p = std::make_shared<Table>(); else if (p.use_count() > 1) p = std::make_shared<Table>(*p); return *p; } TableP get(const std::string& cf) { auto& p = t[cf]; if (!p) p = std::make_shared<Table>(); return p; } };
// 0 = not before, position of the first element with key >= k
inline size_t lower(const Table& t, const std::string& k) { size_t i = 0; while (i < t.size() && t[i].first.compare(k) < 0) ++i; return i; }
inline void put(Table& t, const std::string& k, const std::string& v) { size_t i = lower(t, k); if (i < t.size() && t[i].first == k) t[i].second = v; else t.insert(t.begin() + i, {k, v}); }
inline void del(Table& t, const std::string& k) { size_t i = lower(t, k); if (i < t.size() && t[i].first == k) t.erase(t.begin() + i); }
inline void delrange(Table& t, const std::string& s, const std::string& e) { size_t i = lower(t, s); while (i < t.size() && t[i].first.compare(e) < 0) t.erase(t.begin() + i); }
class Snap : public dingodb::Snapshot { public: Tables tabs; const void* Inner() override { return this; } };
class Iter : public dingodb::Iterator { TableP t_; IteratorOptions o_; long i_ = -1; size_t lo_, hi_;
 public: Iter(TableP t, const IteratorOptions& o) : t_(t), o_(o) { lo_ = o.lower_bound.empty() ? 0 : lower(*t_, o.lower_bound); hi_ = o.upper_bound.empty() ? t_->size() : lower(*t_, o.upper_bound); }
  std::string GetName() override { return "Mem"; } IteratorType GetID() override { return IteratorType::kRawRocksEngine; }
  bool Valid() const override { return i_ >= (long)lo_ && i_ < (long)hi_; }
  void SeekToFirst() override { i_ = (long)lo_; } void SeekToLast() override { i_ = (long)hi_ - 1; }
  void Seek(const std::string& k) override { size_t p = lower(*t_, k); i_ = (long)(p < lo_ ? lo_ : p); }
  void SeekForPrev(const std::string& k) override { size_t p = lower(*t_, k); if (!(p < t_->size() && (*t_)[p].first == k)) { if (p == 0) { i_ = -1; return; } p--; } if (p >= hi_) { if (hi_ == 0) { i_ = -1; return; } p = hi_ - 1; } i_ = (long)p; }
  void Next() override { if (!Valid()) sym_fail("storage iterator advanced although it is not valid"); ++i_; } void Prev() override { if (!Valid()) sym_fail("storage iterator moved back although it is not valid"); --i_; if (i_ < (long)lo_) i_ = -1; }
  std::string_view Key() const override { if (!Valid()) sym_fail("storage iterator read although it is not valid"); return (*t_)[i_].first; } std::string_view Value() const override { if (!Valid()) sym_fail("storage iterator read although it is not valid"); return (*t_)[i_].second; }
  butil::Status Status() const override { return butil::Status::OK(); } };
class Engine;
class Reader : public RawEngine::Reader { Engine* e_; Tables& tabs(const dingodb::SnapshotPtr& s); public: explicit Reader(Engine* e) : e_(e) {}
  butil::Status KvGet(const std::string& cf, const std::string& key, std::string& value) override { return KvGet(cf, nullptr, key, value); }
  butil::Status KvGet(const std::string& cf, dingodb::SnapshotPtr s, const std::string& key, std::string& value) override { TableP t = tabs(s).get(cf); size_t i = lower(*t, key); if (i < t->size() && (*t)[i].first == key) { value = (*t)[i].second; return butil::Status::OK(); } return butil::Status(pb::error::EKEY_NOT_FOUND, "not found"); }
  butil::Status KvScan(const std::string& cf, const std::string& a, const std::string& b, std::vector<pb::common::KeyValue>& kvs) override { return KvScan(cf, nullptr, a, b, kvs); }
  butil::Status KvScan(const std::string& cf, dingodb::SnapshotPtr s, const std::string& a, const std::string& b, std::vector<pb::common::KeyValue>& kvs) override { TableP t = tabs(s).get(cf); for (size_t i = lower(*t, a); i < t->size() && (*t)[i].first.compare(b) < 0; ++i) { pb::common::KeyValue kv; kv.set_key((*t)[i].first); kv.set_value((*t)[i].second); kvs.push_back(kv); } return butil::Status::OK(); }
  butil::Status KvCount(const std::string& cf, const std::string& a, const std::string& b, int64_t& n) override { return KvCount(cf, nullptr, a, b, n); }
  butil::Status KvCount(const std::string& cf, dingodb::SnapshotPtr s, const std::string& a, const std::string& b, int64_t& n) override { std::vector<pb::common::KeyValue> v; KvScan(cf, s, a, b, v); n = v.size(); return butil::Status::OK(); }
  dingodb::IteratorPtr NewIterator(const std::string& cf, IteratorOptions o) override { return NewIterator(cf, nullptr, o); }
  dingodb::IteratorPtr NewIterator(const std::string& cf, dingodb::SnapshotPtr s, IteratorOptions o) override { return std::make_shared<Iter>(tabs(s).get(cf), o); } };
// counts writes so that harnesses can cut the sequence (crash points) and check atomicity
class Writer : public RawEngine::Writer { Engine* e_; public: explicit Writer(Engine* e) : e_(e) {}
  butil::Status KvPut(const std::string& cf, const pb::common::KeyValue& kv) override; butil::Status KvBatchPut(const std::string& cf, const std::vector<pb::common::KeyValue>& kvs) override; butil::Status KvDelete(const std::string& cf, const std::string& key) override;
  butil::Status KvBatchPutAndDelete(const std::string& cf, const std::vector<pb::common::KeyValue>& p, const std::vector<std::string>& d) override;
  butil::Status KvBatchPutAndDelete(const std::map<std::string, std::vector<pb::common::KeyValue>>& p, const std::map<std::string, std::vector<std::string>>& d) override;
  butil::Status KvDeleteRange(const std::string& cf, const pb::common::Range& r) override; butil::Status KvBatchDeleteRange(const std::map<std::string, std::vector<pb::common::Range>>& r) override; };
inline void (*on_write)() = nullptr;
class Engine : public RawEngine { public: Tables tabs; int writes = 0; int crash_at = -1; Tables crash_tabs;   // what is on disk when the process dies just before write number crash_at
  int fail_after = -1;   // fail_after >= 0: writes beyond that number fail without effect
  bool Init(std::shared_ptr<Config>, const std::vector<std::string>&) override { return true; } void Close() override {} void Destroy() override {} std::string GetName() override { return "Mem"; } pb::common::RawEngine GetRawEngineType() override { return pb::common::RAW_ENG_ROCKSDB; }
  dingodb::SnapshotPtr GetSnapshot() override { sched_yield_point(); auto s = std::make_shared<Snap>(); s->tabs = tabs; return s; }
  ReaderPtr Reader() override { return std::make_shared<mem::Reader>(this); } WriterPtr Writer() override { return std::make_shared<mem::Writer>(this); } CheckpointPtr NewCheckpoint() override { return nullptr; }
  butil::Status MergeCheckpointFiles(const std::string&, const pb::common::Range&, const std::vector<std::string>&, std::vector<std::string>&) override { return butil::Status(pb::error::ENOT_SUPPORT, ""); } butil::Status IngestExternalFile(const std::string&, const std::vector<std::string>&) override { return butil::Status(pb::error::ENOT_SUPPORT, ""); } std::vector<int64_t> GetApproximateSizes(const std::string&, std::vector<pb::common::Range>&) override { return {}; } void Flush(const std::string&) override {} butil::Status Compact(const std::string&) override { return butil::Status::OK(); }
  bool quiet = false; bool allow() { if (quiet) return true; sched_yield_point(); if (on_write) on_write(); if (writes == crash_at) crash_tabs = tabs; if (fail_after >= 0 && writes >= fail_after) return false; ++writes; return true; } };
inline Tables& Reader::tabs(const dingodb::SnapshotPtr& s) { if (!s) sched_yield_point(); return s ? static_cast<Snap*>(s.get())->tabs : e_->tabs; }
#define MEM_ALLOW if (!e_->allow()) return butil::Status(pb::error::EINTERNAL, "write failed");
inline butil::Status Writer::KvPut(const std::string& cf, const pb::common::KeyValue& kv) { MEM_ALLOW put(e_->tabs.mut(cf), kv.key(), kv.value()); return butil::Status::OK(); }
inline butil::Status Writer::KvBatchPut(const std::string& cf, const std::vector<pb::common::KeyValue>& kvs) { MEM_ALLOW for (auto& kv : kvs) put(e_->tabs.mut(cf), kv.key(), kv.value()); return butil::Status::OK(); }
inline butil::Status Writer::KvDelete(const std::string& cf, const std::string& key) { MEM_ALLOW del(e_->tabs.mut(cf), key); return butil::Status::OK(); }
inline butil::Status Writer::KvBatchPutAndDelete(const std::string& cf, const std::vector<pb::common::KeyValue>& p, const std::vector<std::string>& d) { MEM_ALLOW for (auto& kv : p) put(e_->tabs.mut(cf), kv.key(), kv.value()); for (auto& k : d) del(e_->tabs.mut(cf), k); return butil::Status::OK(); }
inline butil::Status Writer::KvBatchPutAndDelete(const std::map<std::string, std::vector<pb::common::KeyValue>>& p, const std::map<std::string, std::vector<std::string>>& d) { MEM_ALLOW for (auto& c : p) for (auto& kv : c.second) put(e_->tabs.mut(c.first), kv.key(), kv.value()); for (auto& c : d) for (auto& k : c.second) del(e_->tabs.mut(c.first), k); return butil::Status::OK(); }
inline butil::Status Writer::KvDeleteRange(const std::string& cf, const pb::common::Range& r) { MEM_ALLOW delrange(e_->tabs.mut(cf), r.start_key(), r.end_key()); return butil::Status::OK(); }
inline butil::Status Writer::KvBatchDeleteRange(const std::map<std::string, std::vector<pb::common::Range>>& m) { MEM_ALLOW for (auto& c : m) for (auto& r : c.second) delrange(e_->tabs.mut(c.first), r.start_key(), r.end_key()); return butil::Status::OK(); }
}  // namespace mem
