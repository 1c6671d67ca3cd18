// The disk below rocksdb: an ordered map per column family, atomic batches, a write-ahead log that is durable up to the last sync.
#pragma once
#include <map>
#include <string>
#include <vector>
#include "rocksdb/db.h"
#include "sym.h"
namespace rocks { typedef std::map<std::string, std::string> Map; typedef std::map<std::string, Map> Disk;
inline Disk cur, dur, crash_img; inline int ops = 0, crash_at = -1; inline bool keep_unsynced = false; inline int iters = 0; inline void (*on_crash)() = nullptr; inline void (*on_op)() = nullptr; inline bool fail_write = false, fail_sync = false;
inline void tick() { if (on_op) on_op(); if (ops++ == crash_at) { crash_img = keep_unsynced ? cur : dur; if (on_crash) on_crash(); } }
struct Iter : rocksdb::Iterator { Map m; Map::iterator i; bool lo = false, hi = false; std::string a, b; bool ok = false;
  Iter(const Map& x, const rocksdb::ReadOptions& o) : m(x) { ++iters; if (o.iterate_lower_bound) { lo = true; a = o.iterate_lower_bound->ToString(); } if (o.iterate_upper_bound) { hi = true; b = o.iterate_upper_bound->ToString(); } i = m.end(); } ~Iter() override { --iters; }
  void fix() { ok = i != m.end() && !(hi && !(i->first < b)) && !(lo && i->first < a); } bool Valid() const override { return ok; }
  void SeekToFirst() override { i = lo ? m.lower_bound(a) : m.begin(); fix(); } void SeekToLast() override { i = hi ? m.lower_bound(b) : m.end(); back(); } void back() { if (i == m.begin()) { ok = false; i = m.end(); return; } --i; fix(); }
  void Seek(const rocksdb::Slice& k) override { std::string s = k.ToString(); if (lo && s < a) s = a; i = m.lower_bound(s); fix(); } void SeekForPrev(const rocksdb::Slice& k) override { std::string s = k.ToString(); i = m.upper_bound(s); if (hi) { auto j = m.lower_bound(b); if (j != m.end() && (i == m.end() || j->first < i->first)) i = j; } back(); }
  void Next() override { ++i; fix(); } void Prev() override { back(); } rocksdb::Slice key() const override { return rocksdb::Slice(i->first); } rocksdb::Slice value() const override { return rocksdb::Slice(i->second); } rocksdb::Status status() const override { return {}; } };
}
namespace rocksdb { struct ModelDB : DB {};
inline Status wr(const WriteOptions& o, WriteBatch* b, DB* d) { rocks::tick(); if (rocks::fail_write) return Status::IOError(); for (auto& x : b->ops) { auto& m = rocks::cur[d->def(x.h)->name]; if (x.k == 0) m[x.a] = x.b; else if (x.k == 1) m.erase(x.a); else for (auto i = m.lower_bound(x.a); i != m.end() && i->first < x.b;) i = m.erase(i); } if (o.sync) { rocks::tick(); rocks::dur = rocks::cur; } return {}; }
Status DB::Write(const WriteOptions& o, WriteBatch* b) { return wr(o, b, this); }
Status DB::SyncWAL() { rocks::tick(); if (rocks::fail_sync) return Status::IOError(); rocks::dur = rocks::cur; return {}; }
Status DB::Get(const ReadOptions&, ColumnFamilyHandle* h, const Slice& k, std::string* v) { auto& m = rocks::cur[def(h)->name]; auto i = m.find(k.ToString()); if (i == m.end()) return Status::NotFound(); *v = i->second; return {}; }
Iterator* DB::NewIterator(const ReadOptions& o, ColumnFamilyHandle* h) { return new rocks::Iter(rocks::cur[def(h)->name], o); }
Status DB::Open(const DBOptions&, const std::string&, const std::vector<ColumnFamilyDescriptor>& d, std::vector<ColumnFamilyHandle*>* hs, DB** db) { *db = new ModelDB(); for (auto& x : d) { auto* h = new ColumnFamilyHandle(x.name); hs->push_back(h); (*db)->cfs.push_back(h); } return {}; }
}
