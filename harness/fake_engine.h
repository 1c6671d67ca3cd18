// A replicated-log engine behind the real Engine interface: writes become raft requests handed to a harness callback.
#pragma once
#include <functional>
#include <memory>
#include <vector>
#include "engine/engine.h"
#include "engine/write_data.h"
#include "proto/raft.pb.h"
#include "sym.h"
namespace fake {
using namespace dingodb;
class Engine : public dingodb::Engine { public:
  std::shared_ptr<RawEngine> raw; std::function<butil::Status(std::shared_ptr<Context>, std::vector<pb::raft::Request*>&)> on_write;
  bool Init(std::shared_ptr<Config>) override { return true; } std::string GetName() override { return "Fake"; } pb::common::StorageEngine GetID() override { return pb::common::STORE_ENG_RAFT_STORE; }
  std::shared_ptr<RawEngine> GetRawEngine(pb::common::RawEngine) override { return raw; } std::shared_ptr<Snapshot> GetSnapshot() override { return raw ? raw->GetSnapshot() : nullptr; }
  butil::Status SaveSnapshot(std::shared_ptr<Context>, int64_t, bool) override { return butil::Status(); } butil::Status AyncSaveSnapshot(std::shared_ptr<Context>, int64_t, bool) override { return butil::Status(); }
  butil::Status Write(std::shared_ptr<Context> ctx, std::shared_ptr<WriteData> d) override { std::vector<pb::raft::Request*> r; for (auto& x : d->Datums()) r.push_back(x->TransformToRaft()); return on_write(ctx, r); }
  butil::Status AsyncWrite(std::shared_ptr<Context> ctx, std::shared_ptr<WriteData> d) override { return Write(ctx, d); } butil::Status AsyncWrite(std::shared_ptr<Context> ctx, std::shared_ptr<WriteData> d, WriteCbFunc cb) override { auto s = Write(ctx, d); if (s.ok() && cb) cb(ctx, ctx->Status()); return s; }
  mvcc::ReaderPtr NewMVCCReader(pb::common::RawEngine) override { return nullptr; } ReaderPtr NewReader(pb::common::RawEngine) override { return nullptr; } WriterPtr NewWriter(pb::common::RawEngine) override { return nullptr; } VectorReaderPtr NewVectorReader(pb::common::RawEngine) override { return nullptr; } DocumentReaderPtr NewDocumentReader(pb::common::RawEngine) override { return nullptr; } TxnReaderPtr NewTxnReader(pb::common::RawEngine) override { return nullptr; } TxnWriterPtr NewTxnWriter(pb::common::RawEngine) override { return nullptr; } };
}  // namespace fake
