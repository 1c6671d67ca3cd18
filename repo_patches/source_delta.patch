From d30bf003745fb614005928bab9567ba5698f7a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:29 +0000
Subject: [PATCH 01/45] fix: reading a TTL value whose user value is empty no
 longer aborts the process

A packaged kPutTTL value is user value + 8 bytes ttl + 1 flag byte, so its minimum length is exactly 9.
---
 src/mvcc/codec.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index fbf7074..1205c23 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -367,7 +367,7 @@ ValueFlag Codec::GetValueFlag(const std::string_view& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
@@ -377,7 +377,7 @@ int64_t Codec::GetValueTTL(const std::string& pkg_value) {
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-  CHECK(pkg_value.size() > 9) << "Value length is invalid.";
+  CHECK(pkg_value.size() >= 9) << "Value length is invalid.";
 
   uint8_t flag = static_cast<uint8_t>(pkg_value.back());
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
-- 
2.43.0


From 7578621e8b33c7215eccf8d8996904f6e802d96d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:19 +0000
Subject: [PATCH 02/45] fix: decode the binary ttl in GetValueTTL(const
 std::string&)

The string overload parsed the 8 big-endian ttl bytes as decimal text, so it did not agree with the string_view overload.
---
 src/mvcc/codec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mvcc/codec.cc b/src/mvcc/codec.cc
index 1205c23..c523f66 100644
--- a/src/mvcc/codec.cc
+++ b/src/mvcc/codec.cc
@@ -373,7 +373,7 @@ int64_t Codec::GetValueTTL(const std::string& pkg_value) {
   CHECK(flag == static_cast<uint8_t>(ValueFlag::kPutTTL)) << fmt::format("Value flag({}) is not kPutTTL.", flag);
 
   auto ttl_str = pkg_value.substr(pkg_value.size() - 9, pkg_value.size() - 1);
-  return Helper::StringToInt64(ttl_str);
+  return SerialHelper::ReadLong(ttl_str);
 }
 
 int64_t Codec::GetValueTTL(const std::string_view& pkg_value) {
-- 
2.43.0


From 751c6baa3ccc8184dd0e61112e657f764195301b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 03/45] fix: reject tso requests whose count is negative or can
 never be satisfied

A negative count (or one that overflows the logical part) moved the logical
counter back, so timestamps were handed out twice.
---
 src/coordinator/tso_control.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 729645f..79c2cf8 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -137,9 +137,9 @@ int TsoControl::SyncTimestamp(const pb::meta::TsoTimestamp& current_timestamp, i
 void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoResponse* response) {
   int64_t count = request->count();
   response->set_op_type(request->op_type());
-  if (count == 0) {
+  if (count <= 0 || count >= kMaxLogical) {
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
-    response->mutable_error()->set_errmsg("tso count should be positive");
+    response->mutable_error()->set_errmsg("tso count should be positive and less than max logical");
     return;
   }
   if (!is_healty_) {
-- 
2.43.0


From 1c4de71b80865e6b4efd5de47a99ccf807917dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:28 +0000
Subject: [PATCH 04/45] fix: unforced tso update/reset with the same physical
 and a smaller logical is a fallback

It was accepted and the timestamps granted within that millisecond were granted again.
---
 src/coordinator/tso_control.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index 79c2cf8..c1213c9 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -244,13 +244,19 @@ void TsoControl::Process(google::protobuf::RpcController* controller, const pb::
   this->SubmitMetaIncrementSync(closure, response, meta_increment);
 }
 
+// logical is part of the timestamp: with the same physical a smaller logical hands out used timestamps again
+static bool IsFallback(const pb::meta::TsoTimestamp& next, const pb::meta::TsoTimestamp& current) {
+  return next.physical() < current.physical() ||
+         (next.physical() == current.physical() && next.logical() < current.logical());
+}
+
 // If request.force == false, ResetTso is equal to UpdateTso
 // Else ResetTso will force update tso
 void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
     const pb::meta::TsoTimestamp& current = request.current_timestamp();
-    if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+    if (physical < tso_obj_.last_save_physical || IsFallback(current, tso_obj_.current_timestamp)) {
       if (!request.force()) {
         DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                            << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical()
@@ -287,7 +293,7 @@ void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoRes
   int64_t physical = request.save_physical();
   const pb::meta::TsoTimestamp& current = request.current_timestamp();
   // can't rollback
-  if (physical < tso_obj_.last_save_physical || current.physical() < tso_obj_.current_timestamp.physical()) {
+  if (physical < tso_obj_.last_save_physical || IsFallback(current, tso_obj_.current_timestamp)) {
     DINGO_LOG(WARNING) << "time fallback save_physical:(" << physical << ", " << tso_obj_.last_save_physical
                        << ") current:(" << current.physical() << ", " << tso_obj_.current_timestamp.physical() << ", "
                        << current.logical() << ", " << tso_obj_.current_timestamp.logical() << ")";
-- 
2.43.0


From 56744684b682dd358b637b4185580b2d037d2ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:35 +0000
Subject: [PATCH 05/45] fix: a new tso leader does not grant timestamps before
 its own timestamp is applied

The node accepts requests as soon as SetLeaderTerm ran, but the logical part granted by the
previous leader is not replicated: until the leader-start timestamp is applied it granted the
same timestamps again. Remember the raft term of the last accepted timestamp and wait for it.
---
 src/coordinator/tso_control.cc | 17 ++++++++++-------
 src/coordinator/tso_control.h  |  7 +++++--
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/coordinator/tso_control.cc b/src/coordinator/tso_control.cc
index c1213c9..ca5c133 100644
--- a/src/coordinator/tso_control.cc
+++ b/src/coordinator/tso_control.cc
@@ -154,7 +154,7 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
     {
       BAIDU_SCOPED_LOCK(tso_mutex_);
       int64_t physical = tso_obj_.current_timestamp.physical();
-      if (physical != 0) {
+      if (physical != 0 && synced_term_ == leader_term_.load(butil::memory_order_acquire)) {
         int64_t new_logical = tso_obj_.current_timestamp.logical() + count;
         if (new_logical < kMaxLogical) {
           current = tso_obj_.current_timestamp;
@@ -165,7 +165,8 @@ void TsoControl::GenTso(const pb::meta::TsoRequest* request, pb::meta::TsoRespon
           need_retry = true;
         }
       } else {
-        DINGO_LOG(WARNING) << "timestamp not ok physical == 0, retry later";
+        DINGO_LOG(WARNING) << "timestamp not ok, physical: " << physical << ", synced term: " << synced_term_
+                             << ", retry later";
         need_retry = true;
       }
     }
@@ -252,7 +253,7 @@ static bool IsFallback(const pb::meta::TsoTimestamp& next, const pb::meta::TsoTi
 
 // If request.force == false, ResetTso is equal to UpdateTso
 // Else ResetTso will force update tso
-void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
+void TsoControl::ResetTso(const pb::meta::TsoRequest& request, int64_t term, pb::meta::TsoResponse* response) {
   if (request.has_current_timestamp() && request.save_physical() > 0) {
     int64_t physical = request.save_physical();
     const pb::meta::TsoTimestamp& current = request.current_timestamp();
@@ -278,6 +279,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
       BAIDU_SCOPED_LOCK(tso_mutex_);
       tso_obj_.last_save_physical = physical;
       tso_obj_.current_timestamp = current;
+      synced_term_ = term;
     }
     if (response) {
       response->set_save_physical(physical);
@@ -289,7 +291,7 @@ void TsoControl::ResetTso(const pb::meta::TsoRequest& request, pb::meta::TsoResp
   }
 }
 
-void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoResponse* response) {
+void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, int64_t term, pb::meta::TsoResponse* response) {
   int64_t physical = request.save_physical();
   const pb::meta::TsoTimestamp& current = request.current_timestamp();
   // can't rollback
@@ -307,6 +309,7 @@ void TsoControl::UpdateTso(const pb::meta::TsoRequest& request, pb::meta::TsoRes
     BAIDU_SCOPED_LOCK(tso_mutex_);
     tso_obj_.last_save_physical = physical;
     tso_obj_.current_timestamp = current;
+    synced_term_ = term;
   }
 
   if (response) {
@@ -423,7 +426,7 @@ void TsoControl::SetRaftNode(std::shared_ptr<RaftNode> raft_node) { raft_node_ =
 
 // on_apply callback
 void TsoControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta_increment, bool is_leader,
-                                    int64_t /*term*/, int64_t /*index*/, google::protobuf::Message* response) {
+                                    int64_t term, int64_t /*index*/, google::protobuf::Message* response) {
   for (int i = 0; i < meta_increment.timestamp_oracles_size(); i++) {
     const auto& tso = meta_increment.timestamp_oracles(i);
 
@@ -438,11 +441,11 @@ void TsoControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& met
 
     switch (tso_request.op_type()) {
       case pb::meta::OP_RESET_TSO: {
-        ResetTso(tso_request, tso_response);
+        ResetTso(tso_request, term, tso_response);
         break;
       }
       case pb::meta::OP_UPDATE_TSO: {
-        UpdateTso(tso_request, tso_response);
+        UpdateTso(tso_request, term, tso_response);
         break;
       }
       default: {
diff --git a/src/coordinator/tso_control.h b/src/coordinator/tso_control.h
index 27a4415..3fa9ee3 100644
--- a/src/coordinator/tso_control.h
+++ b/src/coordinator/tso_control.h
@@ -167,8 +167,8 @@ class TsoControl : public MetaControl {
                pb::meta::TsoResponse *response, google::protobuf::Closure *done);
 
   void GenTso(const pb::meta::TsoRequest *request, pb::meta::TsoResponse *response);
-  void ResetTso(const pb::meta::TsoRequest &request, pb::meta::TsoResponse *response);
-  void UpdateTso(const pb::meta::TsoRequest &request, pb::meta::TsoResponse *response);
+  void ResetTso(const pb::meta::TsoRequest &request, int64_t term, pb::meta::TsoResponse *response);
+  void UpdateTso(const pb::meta::TsoRequest &request, int64_t term, pb::meta::TsoResponse *response);
 
   int SyncTimestamp(const pb::meta::TsoTimestamp &current_timestamp, int64_t save_physical);
   void UpdateTimestamp();
@@ -179,6 +179,9 @@ class TsoControl : public MetaControl {
   TsoObj tso_obj_;
   bthread_mutex_t tso_mutex_;  // for tso_obj_
   bool is_healty_ = true;
+  // raft term of the last accepted timestamp, protected by tso_mutex_. A leader must not generate tso until a
+  // timestamp of its own term is applied, its local logical does not cover what the previous leader handed out.
+  int64_t synced_term_ = 0;
 
   // node is leader or not
   butil::atomic<int64_t> leader_term_;
-- 
2.43.0


From df5ba1552213fc5e382210f4d158d47b67302243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:11 +0000
Subject: [PATCH 06/45] fix: auto increment end id overflowed 32 bits (100000
 ids with increment 65535)

The end id wrapped around below ids that were just granted, which were then granted again.
---
 src/coordinator/auto_increment_control.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index e0550f3..db1c3b0 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -403,7 +403,7 @@ int64_t AutoIncrementControl::GetGenerateEndId(int64_t start_id, uint32_t count,
   }
 
   int64_t real_start_id = GetRealStartId(start_id, increment, offset);
-  return real_start_id + count * increment;
+  return real_start_id + static_cast<int64_t>(count) * increment;
 }
 
 int64_t AutoIncrementControl::GetRealStartId(int64_t start_id, uint32_t auto_increment_increment,
-- 
2.43.0


From a2b8b8fdac0f66639bc522043e8ad94fe15f35f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:12 +0000
Subject: [PATCH 07/45] fix: concurrent auto increment create/update no longer
 moves the start id back

Both are checked before they enter the raft log; when a generate was applied in between, applying
them reset the start id and the generated ids were granted again.
---
 src/coordinator/auto_increment_control.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/coordinator/auto_increment_control.cc b/src/coordinator/auto_increment_control.cc
index db1c3b0..5ae452e 100644
--- a/src/coordinator/auto_increment_control.cc
+++ b/src/coordinator/auto_increment_control.cc
@@ -345,6 +345,12 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
     if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
       DINGO_LOG(INFO) << "create auto increment, table id: " << table_id
                       << ", start id: " << auto_increment.increment().start_id();
+      // a concurrent (retried) create was checked before this table existed
+      int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
+      if (start_id_ptr != nullptr && *start_id_ptr >= auto_increment.increment().start_id()) {
+        DINGO_LOG(WARNING) << "auto increment is exist, table id: " << table_id << ", start id: " << *start_id_ptr;
+        continue;
+      }
       auto_increment_map_[table_id] = auto_increment.increment().start_id();
     } else if (auto_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
       int64_t* start_id_ptr = auto_increment_map_.seek(table_id);
@@ -374,6 +380,11 @@ void AutoIncrementControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncr
         if (source_start_id != auto_increment.increment().source_start_id()) {
           DINGO_LOG(WARNING) << "start id compare not equal: " << source_start_id << " | "
                              << auto_increment.increment().source_start_id();
+          // ids were generated since the update was checked, only a forced update may move the start id back
+          if (auto_increment.increment().start_id() > auto_increment.increment().source_start_id() &&
+              auto_increment.increment().start_id() < source_start_id) {
+            continue;
+          }
         }
         auto_increment_map_[table_id] = auto_increment.increment().start_id();
         DINGO_LOG(INFO) << "update auto increment, table id: " << table_id
-- 
2.43.0


From 34cd750b48bb0a538b722f4c88cf5c5a3a929eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 08/45] fix: a rollback record must not overwrite a version
 another transaction committed at the same timestamp

---
 src/engine/txn_engine_helper.cc | 47 +++++++++++++++++++++++++++++++--
 1 file changed, 45 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index c8de756..6d65a2b 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4072,8 +4072,33 @@ butil::Status TxnEngineHelper::BatchRollback(RawEnginePtr raw_engine, std::share
 
 bvar::LatencyRecorder g_txn_do_rollback_latency("dingo_txn_do_rollback");
 
+// Async commit and 1PC calculate their commit_ts, so it can be equal to the start_ts of another transaction. Then the
+// rollback record of that transaction would have the same key as the committed record and must not overwrite it: the
+// committed record itself already makes a later prewrite of the rolled back transaction conflict.
+static butil::Status IsOverlappedWithCommit(RawEnginePtr raw_engine, const std::string &write_key, int64_t start_ts,
+                                            bool &is_overlapped) {
+  is_overlapped = false;
+
+  std::string write_value;
+  auto status = raw_engine->Reader()->KvGet(Constant::kTxnWriteCF, write_key, write_value);
+  if (status.error_code() == pb::error::Errno::EKEY_NOT_FOUND) {
+    return butil::Status::OK();
+  }
+  if (!status.ok()) {
+    return status;
+  }
+
+  pb::store::WriteInfo write_info;
+  if (!write_info.ParseFromString(write_value)) {
+    return butil::Status(pb::error::Errno::EINTERNAL, "parse write info failed");
+  }
+  is_overlapped = (write_info.op() != pb::store::Op::Rollback && write_info.start_ts() != start_ts);
+
+  return butil::Status::OK();
+}
+
 // DoRollback
-butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shared_ptr<Engine> raft_engine,
+butil::Status TxnEngineHelper::DoRollback(RawEnginePtr raw_engine, std::shared_ptr<Engine> raft_engine,
                                           std::shared_ptr<Context> ctx,
                                           std::vector<std::string> &keys_to_rollback_with_data,
                                           std::vector<std::string> &keys_to_rollback_without_data,
@@ -4140,6 +4165,15 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
     kv_puts_write.emplace_back(kv);
   }
 
+  for (auto it = kv_puts_write.begin(); it != kv_puts_write.end();) {
+    bool is_overlapped = false;
+    auto status = IsOverlappedWithCommit(raw_engine, it->key(), start_ts, is_overlapped);
+    if (!status.ok()) {
+      return status;
+    }
+    it = is_overlapped ? kv_puts_write.erase(it) : std::next(it);
+  }
+
   if (kv_puts_write.empty() && kv_deletes_lock.empty() && kv_deletes_data.empty()) {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_detail) << "[txn]Rollback nothing to do, start_ts: " << start_ts;
     return butil::Status::OK();
@@ -4186,7 +4220,7 @@ butil::Status TxnEngineHelper::DoRollback(RawEnginePtr /*raw_engine*/, std::shar
 }
 
 // MarkRollBackOnMissingLock
-butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engine*/,
+butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr raw_engine,
                                                          std::shared_ptr<Engine> raft_engine,
                                                          std::shared_ptr<Context> ctx, std::string primary_key,
                                                          int64_t start_ts) {
@@ -4204,6 +4238,15 @@ butil::Status TxnEngineHelper::MarkRollBackOnMissingLock(RawEnginePtr /*raw_engi
   kv_put.set_key(mvcc::Codec::EncodeKey(primary_key, start_ts));
   kv_put.set_value(write_info.SerializeAsString());
 
+  bool is_overlapped = false;
+  auto status = IsOverlappedWithCommit(raw_engine, kv_put.key(), start_ts, is_overlapped);
+  if (!status.ok()) {
+    return status;
+  }
+  if (is_overlapped) {
+    return butil::Status::OK();
+  }
+
   // after all mutations is processed, write into raft engine
   pb::raft::TxnRaftRequest txn_raft_request;
   auto *cf_put_delete = txn_raft_request.mutable_multi_cf_put_and_delete();
-- 
2.43.0


From 95fcc4fa1f135653c0d123a8c037eb9cf50a4621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:32 +0000
Subject: [PATCH 09/45] fix: a delayed pessimistic lock request must not turn a
 prewritten lock back into a pessimistic lock

---
 src/engine/txn_engine_helper.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 6d65a2b..b8b4159 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1786,7 +1786,8 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
           }
 
           continue;
-        } else if (lock_info.for_update_ts() < for_update_ts) {
+        } else if (lock_info.for_update_ts() < for_update_ts &&
+                   lock_info.lock_type() == pb::store::Op::Lock) {
           // this is a same pessimistic lock with a new for_update_ts, we need to update the lock
           pb::common::KeyValue kv;
           kv.set_key(mvcc::Codec::EncodeKey(mutation.key(), Constant::kLockVer));
-- 
2.43.0


From 2a510b278ebe2698d183c5a6206619f84166e6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:45 +0000
Subject: [PATCH 10/45] fix: a repeated pessimistic lock request returns the
 value visible at its for-update timestamp, as the first one does

---
 src/engine/txn_engine_helper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index b8b4159..d8e387b 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1769,7 +1769,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret2 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret2 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret2.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
@@ -1804,7 +1804,7 @@ butil::Status TxnEngineHelper::PessimisticLock(RawEnginePtr raw_engine, std::sha
 
           if (return_values) {
             pb::store::WriteInfo write_info;
-            auto ret3 = txn_reader.GetOldValue(mutation.key(), start_ts, false, write_info, kvs);
+            auto ret3 = txn_reader.GetOldValue(mutation.key(), for_update_ts, false, write_info, kvs);
             if (!ret3.ok()) {
               // Now we need to fatal exit to prevent data inconsistency between raft peers
               DINGO_LOG(ERROR) << fmt::format("[txn][region({})] PessimisticLock, start_ts: {}", ctx->RegionId(),
-- 
2.43.0


From 8793a4a4b0c668950b5c7a1cdcc04d18d9eed099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:59 +0000
Subject: [PATCH 11/45] fix: a repeated async-commit prewrite answers the
 minimum commit timestamp of the lock it finds

---
 src/engine/txn_engine_helper.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index d8e387b..4f88a2a 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -3196,7 +3196,13 @@ butil::Status TxnEngineHelper::Prewrite(
           << prev_lock_info.ShortDebugString() << ", mutation: " << mutation.ShortDebugString();
       // if enable 1pc need to fallback to 2pc
       try_one_pc = false;
-      use_async_commit = false;
+      if (use_async_commit && prev_lock_info.use_async_commit()) {
+        // The lock of the first attempt already promises its min_commit_ts, answer the same promise again.
+        final_min_commit_ts = std::max(final_min_commit_ts, prev_lock_info.min_commit_ts());
+      } else {
+        use_async_commit = false;
+        final_min_commit_ts = 0;
+      }
       continue;
     }
 
-- 
2.43.0


From 2f0723839a9c821cf9d5dd8fc1711f70ccbb04c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 12/45] fix: a lock scan that continues in the same stream
 repeated its last lock (and never ended with limit 1)

---
 src/engine/txn_engine_helper.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 4f88a2a..6891738 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -1201,6 +1201,9 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
     bytes += lock_info.ByteSizeLong();
     lock_infos.push_back(std::move(lock_info));
 
+    // the scan goes on behind this lock, also when the next call of the same stream continues it
+    iter->Next();
+
     if (stop_checker(lock_infos.size(), bytes)) {
       has_more = true;
 
@@ -1211,8 +1214,6 @@ butil::Status TxnEngineHelper::ScanLockInfo(StreamPtr stream, RawEnginePtr engin
           FLAGS_stream_message_max_bytes);
       break;
     }
-
-    iter->Next();
   }
 
   return butil::Status::OK();
-- 
2.43.0


From 0a198ae2bdc5db2471c0307e2dbff1d951567669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:17 +0000
Subject: [PATCH 13/45] fix: resolving locks of a region latches the keys it
 changes and resolves every lock

---
 src/engine/txn_engine_helper.cc | 154 +++++++++++++++++++-------------
 1 file changed, 93 insertions(+), 61 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 6891738..78aa68d 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -55,6 +55,7 @@
 #include "rocksdb/perf_level.h"
 #include "rocksdb/sst_file_reader.h"
 #include "server/server.h"
+#include "server/service_helper.h"
 #include "vector/codec.h"
 
 namespace dingodb {
@@ -4399,81 +4400,112 @@ butil::Status TxnEngineHelper::BatchResolveLock(RawEnginePtr raw_engine, std::sh
   if (txn_infos.empty()) return butil::Status::OK();
 
   for (const auto &[start_ts, commit_ts] : txn_infos) {
-    std::vector<std::string> keys_to_rollback;
-
-    std::vector<pb::store::LockInfo> lock_infos_to_commit;
-    std::vector<std::string> keys_to_rollback_with_data;
-    std::vector<std::string> keys_to_rollback_without_data;
-    std::vector<std::string> keys_miss_lock_to_rollback;
-
     auto stream = Stream::New(FLAGS_stream_message_max_limit_size);
-    std::vector<pb::store::LockInfo> tmp_lock_infos;
     bool has_more = false;
-    std::string end_key{};
-    auto ret = ScanLockInfo(stream, raw_engine, start_ts, start_ts + 1, region->Range(false), 0, tmp_lock_infos,
-                            has_more, end_key);
-    if (!ret.ok()) {
-      DINGO_LOG(FATAL) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
-                       << ", get lock info failed, start_ts: " << start_ts << ", status: " << ret.error_str();
-    }
+    do {
+      std::vector<pb::store::LockInfo> lock_infos_to_commit;
+      std::vector<std::string> keys_to_rollback_with_data;
+      std::vector<std::string> keys_to_rollback_without_data;
+      std::vector<std::string> keys_miss_lock_to_rollback;
+
+      std::vector<pb::store::LockInfo> tmp_lock_infos;
+      has_more = false;
+      std::string end_key{};
+      auto ret = ScanLockInfo(stream, raw_engine, start_ts, start_ts + 1, region->Range(false), 0, tmp_lock_infos,
+                              has_more, end_key);
+      if (!ret.ok()) {
+        DINGO_LOG(FATAL) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
+                         << ", get lock info failed, start_ts: " << start_ts << ", status: " << ret.error_str();
+      }
 
-    for (const auto &lock_info : tmp_lock_infos) {
-      // if the lock is a pessimistic lock, can't do resolvelock
-      if (lock_info.lock_type() == pb::store::Op::Lock) {
-        DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock,", region->Id())
-                         << ", pessimistic lock, can't do resolvelock, key: " << lock_info.key()
-                         << ", start_ts: " << start_ts << ", lock_info: " << lock_info.ShortDebugString();
-        *txn_result->mutable_locked() = lock_info;
-        return butil::Status::OK();
-      } else if (lock_info.lock_type() != pb::store::Op::Put && lock_info.lock_type() != pb::store::Op::Delete &&
-                 lock_info.lock_type() != pb::store::Op::PutIfAbsent) {
-        DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock,", region->Id())
-                         << ", invalid lock_type, key: " << lock_info.key() << ", start_ts: " << start_ts
-                         << ", lock_info: " << lock_info.ShortDebugString();
-        *txn_result->mutable_locked() = lock_info;
-        return butil::Status::OK();
+      if (tmp_lock_infos.empty()) {
+        break;
       }
 
-      // prepare to do rollback or commit
-      const std::string &key = lock_info.key();
-      if (commit_ts > 0) {
-        // do commit
-        lock_infos_to_commit.push_back(lock_info);
-      } else {
-        if (lock_info.short_value().empty()) {
-          keys_to_rollback_with_data.push_back(key);
-        } else {
-          keys_to_rollback_without_data.push_back(key);
-        }
+      // The scanned locks may be released or replaced by concurrent requests until their keys are latched, so latch the
+      // keys and read the locks again.
+      std::vector<std::string> latch_keys;
+      latch_keys.reserve(tmp_lock_infos.size());
+      for (const auto &lock_info : tmp_lock_infos) {
+        latch_keys.push_back(lock_info.key());
       }
-    }
+      LatchContext latch_ctx(region, latch_keys);
+      ServiceHelper::LatchesAcquire(latch_ctx, true);
+      DEFER(ServiceHelper::LatchesRelease(latch_ctx));
 
-    if (!lock_infos_to_commit.empty()) {
-      auto ret = DoTxnCommit(raw_engine, raft_engine, ctx, region, lock_infos_to_commit, start_ts, commit_ts);
+      TxnReader txn_reader(raw_engine);
+      ret = txn_reader.Init();
       if (!ret.ok()) {
-        DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
-                         << ", do txn commit failed, start_ts: " << start_ts << ", status: " << ret.error_str();
         return ret;
       }
-    }
 
-    if (!keys_to_rollback_with_data.empty() || !keys_to_rollback_without_data.empty()) {
-      for (auto const &key : keys_to_rollback_with_data) {
-        DINGO_LOG(INFO) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id()) << "primary key:" << key
-                        << ", do rollback with data, start_ts: " << start_ts;
+      for (const auto &latch_key : latch_keys) {
+        pb::store::LockInfo lock_info;
+        ret = txn_reader.GetLockInfo(latch_key, lock_info);
+        if (!ret.ok()) {
+          return ret;
+        }
+        if (lock_info.lock_ts() != start_ts) {
+          continue;
+        }
+
+        // if the lock is a pessimistic lock, can't do resolvelock
+        if (lock_info.lock_type() == pb::store::Op::Lock) {
+          DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock,", region->Id())
+                           << ", pessimistic lock, can't do resolvelock, key: " << lock_info.key()
+                           << ", start_ts: " << start_ts << ", lock_info: " << lock_info.ShortDebugString();
+          *txn_result->mutable_locked() = lock_info;
+          return butil::Status::OK();
+        } else if (lock_info.lock_type() != pb::store::Op::Put && lock_info.lock_type() != pb::store::Op::Delete &&
+                   lock_info.lock_type() != pb::store::Op::PutIfAbsent) {
+          DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock,", region->Id())
+                           << ", invalid lock_type, key: " << lock_info.key() << ", start_ts: " << start_ts
+                           << ", lock_info: " << lock_info.ShortDebugString();
+          *txn_result->mutable_locked() = lock_info;
+          return butil::Status::OK();
+        }
+
+        // prepare to do rollback or commit
+        const std::string &key = lock_info.key();
+        if (commit_ts > 0) {
+          // do commit
+          lock_infos_to_commit.push_back(lock_info);
+        } else {
+          if (lock_info.short_value().empty()) {
+            keys_to_rollback_with_data.push_back(key);
+          } else {
+            keys_to_rollback_without_data.push_back(key);
+          }
+        }
       }
-      for (auto const &key : keys_to_rollback_without_data) {
-        DINGO_LOG(INFO) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id()) << "primary key:" << key
-                        << ", do rollback without data, start_ts: " << start_ts;
+
+      if (!lock_infos_to_commit.empty()) {
+        auto ret = DoTxnCommit(raw_engine, raft_engine, ctx, region, lock_infos_to_commit, start_ts, commit_ts);
+        if (!ret.ok()) {
+          DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
+                           << ", do txn commit failed, start_ts: " << start_ts << ", status: " << ret.error_str();
+          return ret;
+        }
       }
-      auto ret = DoRollback(raw_engine, raft_engine, ctx, keys_to_rollback_with_data, keys_to_rollback_without_data,
-                            keys_miss_lock_to_rollback, start_ts);
-      if (!ret.ok()) {
-        DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
-                         << ", rollback failed, start_ts: " << start_ts << ", status: " << ret.error_str();
-        return ret;
+
+      if (!keys_to_rollback_with_data.empty() || !keys_to_rollback_without_data.empty()) {
+        for (auto const &key : keys_to_rollback_with_data) {
+          DINGO_LOG(INFO) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id()) << "primary key:" << key
+                          << ", do rollback with data, start_ts: " << start_ts;
+        }
+        for (auto const &key : keys_to_rollback_without_data) {
+          DINGO_LOG(INFO) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id()) << "primary key:" << key
+                          << ", do rollback without data, start_ts: " << start_ts;
+        }
+        auto ret = DoRollback(raw_engine, raft_engine, ctx, keys_to_rollback_with_data, keys_to_rollback_without_data,
+                              keys_miss_lock_to_rollback, start_ts);
+        if (!ret.ok()) {
+          DINGO_LOG(ERROR) << fmt::format("[txn][region({})] BatchResolveLock, ", region->Id())
+                           << ", rollback failed, start_ts: " << start_ts << ", status: " << ret.error_str();
+          return ret;
+        }
       }
-    }
+    } while (has_more);
   }
   return butil::Status::OK();
 }
-- 
2.43.0


From 598a4be7c74568f50650f643d4c2d0f355b93c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 14/45] fix: garbage collection removes the newest delete of a
 key after the versions it hides, and stops when a batch is not written

---
 src/engine/txn_engine_helper.cc | 78 +++++++++++++++++++++++++++++----
 1 file changed, 69 insertions(+), 9 deletions(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 78aa68d..081139c 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4979,6 +4979,11 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
   std::string write_key;
   std::string last_write_key;
 
+  // The newest delete record of a key hides the older versions, so it must not be removed before they are. The versions
+  // of a key may be removed in several batches and a later batch may not be written.
+  std::string deferred_delete_write;
+  bool is_write_failed = false;
+
   while (write_iter->Valid()) {
     total_iter_count++;
     std::string_view write_iter_key = write_iter->Key();
@@ -5009,6 +5014,10 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
 
     // reset for first put
     if (last_write_key != write_key) {
+      if (!deferred_delete_write.empty()) {
+        kv_deletes_write.emplace_back(std::move(deferred_delete_write));
+        deferred_delete_write.clear();
+      }
       is_exist_put_or_delete_key_if_write_ts_gt_safe_point_ts = false;
       last_write_key = write_key;
       is_first_put_key_if_write_ts_le_safe_point_ts = true;
@@ -5087,7 +5096,11 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
             is_first_put_key_if_write_ts_le_safe_point_ts = false;
           }
         }
-        kv_deletes_write.emplace_back(write_iter_key);
+        if (deferred_delete_write.empty()) {
+          deferred_delete_write = std::string(write_iter_key);
+        } else {
+          kv_deletes_write.emplace_back(write_iter_key);
+        }
         break;
       }
 
@@ -5136,16 +5149,28 @@ butil::Status TxnEngineHelper::DoGcCoreTxn(RawEnginePtr raw_engine, std::shared_
       }
 
       total_delete_count += (kv_deletes_lock.size() + kv_deletes_write.size() + kv_deletes_data.size());
-      DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type,
+      auto status = DoFinalWorkForTxnGc(raft_engine, ctx, reader, snapshot, write_key, gc_safe_point->GetTenantId(), type,
                           safe_point_ts, kv_deletes_lock, kv_deletes_data, kv_deletes_write, lock_start_key,
                           lock_end_key, last_lock_start_key, last_lock_end_key);
+      if (!status.ok()) {
+        is_write_failed = true;
+        break;
+      }
     }
     write_iter->Next();
   }
 
+  if (!deferred_delete_write.empty()) {
+    kv_deletes_write.emplace_back(std::move(deferred_delete_write));
+  }
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
+  if (is_write_failed) {
+    goto _interrupt2;
+  }
+
   if (internal_gc_stop) {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail)
         << fmt::format("[txn_gc][tenant({})][region({})][type({})][txn] set internal_gc_stop stop, return",
@@ -5292,6 +5317,30 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
         }
       };
 
+  // The newest removed version of a key hides the older ones (it may be a delete or have expired), so it must not be
+  // removed before they are. The versions of a key may be removed in several batches and a later batch may not be
+  // written.
+  std::string deferred_key;
+  int64_t deferred_vector_id = 0;
+  int64_t deferred_ts = 0;
+  bool is_write_failed = false;
+
+  auto lambda_remove_function = [&](std::string_view default_iter_key, int64_t vector_id, int64_t default_ts) {
+    if (deferred_key.empty()) {
+      deferred_key = std::string(default_iter_key);
+      deferred_vector_id = vector_id;
+      deferred_ts = default_ts;
+    } else {
+      lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
+    }
+  };
+  auto lambda_remove_deferred_function = [&]() {
+    if (!deferred_key.empty()) {
+      lambda_emplace_back_function(type, deferred_key, deferred_vector_id, deferred_ts);
+      deferred_key.clear();
+    }
+  };
+
   while (default_iter->Valid()) {
     total_iter_count++;
     std::string_view default_iter_key = default_iter->Key();
@@ -5324,6 +5373,7 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
     }
 
     if (last_default_key != default_key) {
+      lambda_remove_deferred_function();
       last_default_key = default_key;
       is_exist_default_key_if_ts_gt_safe_point_ts = false;
       is_first_put_key_if_ts_le_safe_point_ts = true;
@@ -5351,7 +5401,7 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
           }
         }
 
-        lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
+        lambda_remove_function(default_iter_key, vector_id, default_ts);
         break;
       }
       case mvcc::ValueFlag::kPutTTL: {
@@ -5368,7 +5418,7 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
             }
           }
         }
-        lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
+        lambda_remove_function(default_iter_key, vector_id, default_ts);
         break;
       }
 
@@ -5379,7 +5429,7 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
             is_exist_default_key_if_ts_gt_safe_point_ts = true;
           }
         }
-        lambda_emplace_back_function(type, default_iter_key, vector_id, default_ts);
+        lambda_remove_function(default_iter_key, vector_id, default_ts);
         break;
       }
 
@@ -5422,22 +5472,32 @@ butil::Status TxnEngineHelper::DoGcCoreNonTxn(RawEnginePtr raw_engine, std::shar
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
       total_delete_count += kv_deletes_default.size() + kv_deletes_scalar.size() + kv_deletes_table.size() +
                             kv_deletes_scalar_speedup.size() + kv_deletes_use_document.size();
-      DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
+      auto status = DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
                              kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup, kv_deletes_use_document);
 #else
       total_delete_count += kv_deletes_default.size() + kv_deletes_scalar.size() + kv_deletes_table.size() +
                             kv_deletes_scalar_speedup.size();
-      DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
+      auto status = DoFinalWorkForNonTxnGc(raft_engine, ctx, gc_safe_point->GetTenantId(), type, kv_deletes_default,
                              kv_deletes_scalar, kv_deletes_table, kv_deletes_scalar_speedup);
 #endif
+      if (!status.ok()) {
+        is_write_failed = true;
+        break;
+      }
     }
 
     default_iter->Next();
   }
 
+  lambda_remove_deferred_function();
+
 _interrupt1:
 
   auto [internal_gc_stop, internal_safe_point_ts] = gc_safe_point->GetGcFlagAndSafePointTs();
+  if (is_write_failed) {
+    goto _interrupt2;
+  }
+
   if (internal_gc_stop) {
     DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_txn_gc_detail)
         << fmt::format("[txn_gc][tenant({})][region({})][type({})][nontxn] set internal_gc_stop stop, return",
@@ -5894,7 +5954,7 @@ butil::Status TxnEngineHelper::DoFinalWorkForTxnGc(
   kv_deletes_data.resize(0);
   kv_deletes_write.resize(0);
 
-  return butil::Status();
+  return status;
 }
 
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
@@ -5966,7 +6026,7 @@ butil::Status TxnEngineHelper::DoFinalWorkForNonTxnGc(std::shared_ptr<Engine> ra
   kv_deletes_use_document.resize(0);
 #endif
 
-  return butil::Status();
+  return status;
 }
 
 void TxnEngineHelper::RegularUpdateSafePointTsHandler(void * /*arg*/) {
-- 
2.43.0


From 9e5ef64c9728fc46882aa0d38c72c60a207a6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:11 +0000
Subject: [PATCH 15/45] fix: a garbage collection request for a tenant without
 a safe point no longer crashes the store

---
 src/engine/txn_engine_helper.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 081139c..6421321 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -4878,6 +4878,11 @@ butil::Status TxnEngineHelper::Gc(RawEnginePtr raw_engine, std::shared_ptr<Engin
   int64_t tenant_id = definition.tenant_id();
 
   auto gc_safe_point = gc_safe_point_manager->FindSafePoint(tenant_id);
+  if (gc_safe_point == nullptr) {
+    DINGO_LOG(ERROR) << fmt::format("[txn_gc][tenant({})][region({})] safe point of the tenant is not found", tenant_id,
+                                    region->Id());
+    return butil::Status(pb::error::Errno::EINTERNAL, "safe point of tenant %ld is not found", tenant_id);
+  }
 
   return DoGc(raw_engine, raft_engine, ctx, safe_point_ts, gc_safe_point, range.start_key(), range.end_key());
 }
-- 
2.43.0


From fc6e7df7fab0a544dd845530738151f74be8ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 16/45] fix: mono store engine stores the ttl of a put

---
 src/engine/mono_store_engine.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index 75153e6..b0f71fc 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -369,7 +369,8 @@ butil::Status MonoStoreEngine::Writer::KvPut(std::shared_ptr<Context> ctx,
     return butil::Status(pb::error::ETSO_NOT_AVAILABLE, "TSO not available");
   }
 
-  auto encode_kvs = mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs);
+  auto encode_kvs = ctx->Ttl() == 0 ? mvcc::Codec::EncodeKeyValuesWithPut(ts, kvs)
+                                    : mvcc::Codec::EncodeKeyValuesWithTTL(ts, ctx->Ttl(), kvs);
   auto status = mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_kvs, ts));
   if (!status.ok()) {
     return status;
-- 
2.43.0


From 52c2309ff47aa41b6a84282aaef8bbcc34174209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 17/45] fix: mono store engine deletes the encoded range

---
 src/engine/mono_store_engine.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/mono_store_engine.cc b/src/engine/mono_store_engine.cc
index b0f71fc..56338f5 100644
--- a/src/engine/mono_store_engine.cc
+++ b/src/engine/mono_store_engine.cc
@@ -421,7 +421,7 @@ butil::Status MonoStoreEngine::Writer::KvDelete(std::shared_ptr<Context> ctx, co
 butil::Status MonoStoreEngine::Writer::KvDeleteRange(std::shared_ptr<Context> ctx, const pb::common::Range& range) {
   auto encode_range = mvcc::Codec::EncodeRange(range);
 
-  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), range));
+  return mono_engine_->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), encode_range));
 }
 
 butil::Status MonoStoreEngine::Writer::KvPutIfAbsent(std::shared_ptr<Context> ctx,
-- 
2.43.0


From d37329255edea7c0867f1966c210f40d0902d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:44 +0000
Subject: [PATCH 18/45] fix: compare and set is refused in a read-only cluster
 like every other put

---
 src/server/store_service.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/server/store_service.cc b/src/server/store_service.cc
index d0c43a4..a934758 100644
--- a/src/server/store_service.cc
+++ b/src/server/store_service.cc
@@ -914,6 +914,11 @@ static butil::Status ValidateKvCompareAndSetRequest(const dingodb::pb::store::Kv
     return status;
   }
 
+  status = ServiceHelper::ValidateClusterReadOnly();
+  if (!status.ok()) {
+    return status;
+  }
+
   return butil::Status();
 }
 
@@ -1021,6 +1026,11 @@ static butil::Status ValidateKvBatchCompareAndSetRequest(const dingodb::pb::stor
     return status;
   }
 
+  status = ServiceHelper::ValidateClusterReadOnly();
+  if (!status.ok()) {
+    return status;
+  }
+
   return butil::Status();
 }
 
-- 
2.43.0


From ea3f5aeac09a48e7e2af4c49039a60320cc41f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:41 +0000
Subject: [PATCH 19/45] fix: KvRange with count_only answers the number of keys
 instead of zero

---
 src/coordinator/kv_control_kv.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 0530faa..7ecd94d 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -238,11 +238,11 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
       continue;
     }
 
-    limit_count++;
-    if (limit_count > limit) {
+    if (limit_count >= limit) {
       has_more = true;
       break;
     }
+    limit_count++;
 
     if (count_only) {
       continue;
@@ -286,7 +286,7 @@ butil::Status KvControl::KvRange(const std::string &key, const std::string &rang
     kv.push_back(kv_temp);
   }
 
-  return_count = kv.size();
+  return_count = count_only ? limit_count : kv.size();
 
   DINGO_LOG_IF(INFO, FLAGS_dingo_log_switch_coor_kv)
       << "KvRange finish, key: " << key << "(" << Helper::StringToHex(key) << "), range_end: " << range_end << "("
-- 
2.43.0


From c7ebe56af50160e3bc825852ffa1720f738c8e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:41 +0000
Subject: [PATCH 20/45] fix: KvPut with ignore_value keeps the stored value
 instead of clearing it

---
 src/coordinator/kv_control_kv.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 7ecd94d..732a8d9 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -471,8 +471,8 @@ butil::Status KvControl::KvPut(const pb::common::KeyValue &key_value_in, int64_t
   kv_index_meta_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_PUT);
   kv_index_meta_increment->set_ignore_lease(ignore_lease);
   kv_index_meta_increment->set_lease_id(lease_grant_id);
+  kv_index_meta_increment->set_ignore_value(ignore_value);
   if (!ignore_value) {
-    kv_index_meta_increment->set_ignore_value(ignore_value);
     kv_index_meta_increment->set_value(key_value_in.value());
   }
   if (!ignore_lease) {
-- 
2.43.0


From 473ee8e146273084ad63bc94c1c38eea3e27c408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 21/45] fix: KvControl loads the applied index of a snapshot
 last and keeps the initial ids

---
 src/coordinator/kv_control_fsm.cc | 58 ++++++++++++++++---------------
 1 file changed, 30 insertions(+), 28 deletions(-)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 1cfce1b..442a20d 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -178,34 +178,6 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
 
   std::vector<pb::common::KeyValue> kvs;
 
-  // 0.id_epoch map
-  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
-  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
-    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
-  }
-  {
-    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
-    if (!id_epoch_meta_->Recover(kvs)) {
-      return false;
-    }
-
-    // remove data in rocksdb
-    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
-      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-
-    // write data to rocksdb
-    if (!meta_writer_->Put(kvs)) {
-      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
-      return false;
-    }
-    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
-  }
-  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
-  kvs.clear();
-
   // 14.lease_map_
   kvs.reserve(meta_snapshot_file.lease_map_kvs_size());
   for (int i = 0; i < meta_snapshot_file.lease_map_kvs_size(); i++) {
@@ -288,6 +260,36 @@ bool KvControl::LoadMetaFromSnapshotFile(pb::coordinator_internal::MetaSnapshotF
   DINGO_LOG(INFO) << "LoadSnapshot version_kv_rev_meta, count=" << kvs.size();
   kvs.clear();
 
+  // 0.id_epoch map
+  // it holds the applied index, so it is written last: a crash before this point loads the snapshot again
+  kvs.reserve(meta_snapshot_file.id_epoch_map_kvs_size());
+  for (int i = 0; i < meta_snapshot_file.id_epoch_map_kvs_size(); i++) {
+    kvs.push_back(meta_snapshot_file.id_epoch_map_kvs(i));
+  }
+  {
+    // BAIDU_SCOPED_LOCK(id_epoch_map_mutex_);
+    if (!id_epoch_meta_->Recover(kvs)) {
+      return false;
+    }
+    InitIds();
+
+    // remove data in rocksdb
+    if (!meta_writer_->DeletePrefix(id_epoch_meta_->internal_prefix)) {
+      DINGO_LOG(ERROR) << "Coordinator delete id_epoch_meta_ range failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator delete range id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+
+    // write data to rocksdb
+    if (!meta_writer_->Put(kvs)) {
+      DINGO_LOG(ERROR) << "Coordinator write id_epoch_meta_ failed in LoadMetaFromSnapshotFile";
+      return false;
+    }
+    DINGO_LOG(INFO) << "Coordinator put id_epoch_meta_ success in LoadMetaFromSnapshotFile";
+  }
+  DINGO_LOG(INFO) << "LoadSnapshot id_epoch_meta, count=" << kvs.size();
+  kvs.clear();
+
   // build id_epoch, schema_name, table_name, index_name maps
   BuildTempMaps();
 
-- 
2.43.0


From fb4af754c39790cbcd4fff8c8d984229fcd48343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:02 +0000
Subject: [PATCH 22/45] fix: replaying a version kv put after a crash does not
 apply it twice

---
 src/coordinator/kv_control_kv.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 732a8d9..eb9007b 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -603,6 +603,12 @@ butil::Status KvControl::KvPutApply(const std::string &key,
         << "KvPutApply GetRawKvIndex found, will update key: " << key << "(" << Helper::StringToHex(key)
         << "), error: " << ret.error_str();
 
+    // the log is replayed after a crash, this revision may be on disk already
+    if (kv_index.mod_revision().main() == op_revision.main() && kv_index.mod_revision().sub() == op_revision.sub()) {
+      DINGO_LOG(INFO) << "KvPutApply already applied, key: " << key << ", op_revision: " << op_revision.ShortDebugString();
+      return butil::Status::OK();
+    }
+
     last_mod_revision = kv_index.mod_revision();
 
     if (kv_index.generations_size() == 0) {
-- 
2.43.0


From 69490a93889bd2ce32a98b48d60aa357d99b628f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:15 +0000
Subject: [PATCH 23/45] fix: a watch registered while its key is written or
 deleted could miss the event

---
 src/coordinator/kv_control_kv.cc | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index eb9007b..99a926b 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -722,11 +722,8 @@ butil::Status KvControl::KvPutApply(const std::string &key,
       << "KvPutApply PutRawKvIndex success, key: " << key << "(" << Helper::StringToHex(key)
       << "), kv_index: " << kv_index.ShortDebugString();
 
-  // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvPutApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
+  // trigger watch, only TriggerOneWatch can tell (under the lock) if there is a watcher, one may be registering right now
+  {
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
       prev_kv.mutable_kv()->set_key(key);
@@ -864,11 +861,8 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
       << "KvDeleteApply success, key: " << key << "(" << Helper::StringToHex(key)
       << "), revision: " << op_revision.ShortDebugString();
 
-  // trigger watch
-  if (!one_time_watch_map_.empty()) {
-    DINGO_LOG(INFO) << "KvDeleteApply one_time_watch_map_ is not empty, will trigger watch, key: " << key << "("
-                    << Helper::StringToHex(key) << "), watch size: " << one_time_watch_map_.size();
-
+  // trigger watch, only TriggerOneWatch can tell (under the lock) if there is a watcher, one may be registering right now
+  {
     if (prev_kv.create_revision() > 0) {
       prev_kv.set_lease(kv_rev_last.kv().lease());
       prev_kv.mutable_kv()->set_key(key);
-- 
2.43.0


From fbfc9e5b931adc0a5e54ea0fddd51964ab8b4e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:15 +0000
Subject: [PATCH 24/45] fix: the previous value of a watch event has the
 version before the event

---
 src/coordinator/kv_control_kv.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 99a926b..1ab6ff3 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -635,7 +635,7 @@ butil::Status KvControl::KvPutApply(const std::string &key,
         // only in this situation, the prev_kv is meaningful
         prev_kv.set_create_revision(latest_generation->create_revision().main());
         prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
+        prev_kv.set_version(latest_generation->verison() - 1);
       } else {
         latest_generation->mutable_create_revision()->set_main(op_revision.main());
         latest_generation->mutable_create_revision()->set_sub(op_revision.sub());
@@ -799,7 +799,7 @@ butil::Status KvControl::KvDeleteApply(const std::string &key,
         // only in this situation, the prev_kv is meaningful
         prev_kv.set_create_revision(latest_generation->create_revision().main());
         prev_kv.set_mod_revision(kv_index.mod_revision().main());
-        prev_kv.set_version(latest_generation->verison());
+        prev_kv.set_version(latest_generation->verison() - 1);
       } else {
         // a null generation means delete
         // so we do not need to add a new generation
-- 
2.43.0


From 84f42fedaa662f2dfaf87d9537d9c8f16637141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:15 +0000
Subject: [PATCH 25/45] fix: a watch that filters put events was answered with
 one

---
 src/coordinator/kv_control_watch.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 95a2171..63e4c55 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -92,7 +92,7 @@ butil::Status KvControl::OneTimeWatch(const std::string& watch_key, int64_t star
 
   if (!kvs_temp.empty()) {
     // compare start_revision and current revision
-    if (kvs_temp[0].mod_revision() > start_revision) {
+    if (!no_put_event && kvs_temp[0].mod_revision() > start_revision) {
       auto* event = response->add_events();
       event->set_type(::dingodb::pb::version::Event_EventType::Event_EventType_PUT);
       *(event->mutable_kv()) = kvs_temp[0];
-- 
2.43.0


From c1d4ac92d5c26a59d1fcb9dc9181cf252b45e0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 26/45] fix: answered watches were kept in memory until the
 leader changed

---
 src/coordinator/kv_control_watch.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 63e4c55..3ce7056 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -163,6 +163,7 @@ butil::Status KvControl::RemoveOneTimeWatchWithLock(uint64_t closure_id) {
                   << ", done->Run() finish, cost: " << butil::gettimeofday_ms() - start_ts << " ms";
 
   auto watch_key = defer_done.GetWatchKey();
+  one_time_watch_closure_map_.erase(it_defer_done);
   if (watch_key.empty()) {
     DINGO_LOG(ERROR) << "RemoveOneTimeWatch watch_key is empty, closure_id:" << closure_id
                      << ", remove from one_time_watch_closure_map_";
-- 
2.43.0


From e99c4bd31598f710d4513b8c28318e7c41a54b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 27/45] fix: a watch registered during a leader change was
 never answered

---
 src/coordinator/kv_control_fsm.cc   | 5 +++++
 src/coordinator/kv_control_watch.cc | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 442a20d..9d48ac1 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -83,6 +83,11 @@ void KvControl::OnLeaderStart(int64_t term) {
   one_time_watch_closure_status_map_.Clear();
   {
     BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
+
+    for (auto& it : one_time_watch_closure_map_) {
+      it.second.Done();
+    }
+
     one_time_watch_map_.clear();
     one_time_watch_closure_map_.clear();
   }
diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index 3ce7056..a46ac9c 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -56,6 +56,12 @@ butil::Status KvControl::OneTimeWatch(const std::string& watch_key, int64_t star
 
   BAIDU_SCOPED_LOCK(one_time_watch_map_mutex_);
 
+  // OnLeaderStop answers the watches under the lock, no one answers a watch that is added after it
+  if (!IsLeader()) {
+    RedirectResponse(response);
+    return butil::Status(pb::error::Errno::ERAFT_NOTLEADER, "not leader");
+  }
+
   if (one_time_watch_map_.size() > FLAGS_version_watch_max_count) {
     DINGO_LOG(ERROR) << "OneTimeWatch, one_time_watch_map_.size() > FLAGS_version_watch_max_count, watch_key:"
                      << watch_key << ", start_revision:" << start_revision << ", no_put_event:" << no_put_event
-- 
2.43.0


From 4ced2e4acffdede7c047545fbbd45e10f29bd7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:41 +0000
Subject: [PATCH 28/45] fix: a refused watch was answered without an error or
 left waiting

---
 src/coordinator/kv_control_watch.cc | 2 ++
 src/server/version_service.cc       | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/coordinator/kv_control_watch.cc b/src/coordinator/kv_control_watch.cc
index a46ac9c..2eb1f09 100644
--- a/src/coordinator/kv_control_watch.cc
+++ b/src/coordinator/kv_control_watch.cc
@@ -68,6 +68,8 @@ butil::Status KvControl::OneTimeWatch(const std::string& watch_key, int64_t star
                      << ", no_delete_event:" << no_delete_event << ", need_prev_kv:" << need_prev_kv
                      << ", wait_on_not_exist_key:" << wait_on_not_exist_key << ", done:" << done
                      << ", one_time_watch_map_.size:" << one_time_watch_map_.size();
+    response->mutable_error()->set_errcode(pb::error::Errno::EWATCH_COUNT_EXCEEDS_LIMIT);
+    response->mutable_error()->set_errmsg("watch count exceeds limit");
     return butil::Status(pb::error::Errno::EWATCH_COUNT_EXCEEDS_LIMIT,
                          "OneTimeWatch, one_time_watch_map_.size() > FLAGS_version_watch_max_count");
   }
diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index c3d8380..29ef7ef 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -700,6 +700,7 @@ void DoWatch(google::protobuf::RpcController* controller, const pb::version::Wat
     DINGO_LOG(ERROR) << "Watch failed: no put event and no delete event";
     response->mutable_error()->set_errcode(pb::error::Errno::EILLEGAL_PARAMTETERS);
     response->mutable_error()->set_errmsg("no put event and no delete event");
+    return;
   }
 
   kv_control->OneTimeWatch(one_time_req.key(), one_time_req.start_revision(), no_put_event, no_delete_event,
-- 
2.43.0


From d9648041006cad98f40a436ca9daa488e2bfd035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:44 +0000
Subject: [PATCH 29/45] fix: renewing a lease while it is revoked brought it
 back

---
 src/coordinator/kv_control_fsm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 9d48ac1..77ea77f 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -378,6 +378,12 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
         }
 
       } else if (version_lease.op_type() == pb::coordinator_internal::MetaIncrementOpType::UPDATE) {
+        if (!kv_lease_map_.Exists(version_lease.id())) {
+          DINGO_LOG(WARNING) << "ApplyMetaIncrement version_lease UPDATE, [id=" << version_lease.id()
+                             << "] is revoked already, skip";
+          continue;
+        }
+
         auto ret = kv_lease_meta_->Put(version_lease.id(), version_lease.lease());
         if (!ret.ok()) {
           DINGO_LOG(FATAL) << "ApplyMetaIncrement version_lease UPDATE, [id=" << version_lease.id()
-- 
2.43.0


From 009bcfb07ee4496f0aad6c3bb51c1737f4b7461e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:13 +0000
Subject: [PATCH 30/45] fix: a key put under a lease while the lease is revoked
 or expires was never deleted

---
 src/coordinator/kv_control.h        |  3 +++
 src/coordinator/kv_control_fsm.cc   |  5 +++++
 src/coordinator/kv_control_kv.cc    |  7 +++++++
 src/coordinator/kv_control_lease.cc | 12 ++++++------
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/coordinator/kv_control.h b/src/coordinator/kv_control.h
index 2dc7da2..e79136c 100644
--- a/src/coordinator/kv_control.h
+++ b/src/coordinator/kv_control.h
@@ -298,6 +298,9 @@ class KvControl : public MetaControl {
                            bool ignore_lease, int64_t lease_id, bool ignore_value, const std::string &value);
 
   // KvDeleteRangeApply is the apply function for delete
+  // check if the present value of the key belongs to the lease
+  bool IsKeyOfLease(const std::string &key, int64_t lease_id);
+
   butil::Status KvDeleteApply(const std::string &key, const pb::coordinator_internal::RevisionInternal &op_revision);
 
   // KvCompact is the compact function
diff --git a/src/coordinator/kv_control_fsm.cc b/src/coordinator/kv_control_fsm.cc
index 77ea77f..c88f486 100644
--- a/src/coordinator/kv_control_fsm.cc
+++ b/src/coordinator/kv_control_fsm.cc
@@ -496,6 +496,11 @@ void KvControl::ApplyMetaIncrement(pb::coordinator_internal::MetaIncrement& meta
             new_op_revision.set_sub(sub_revision++);
           }
 
+          // the delete is for the keys of a lease, skip the key if it does not belong to the lease
+          if (kv_index.lease_id() != 0 && !IsKeyOfLease(kv_index.id(), kv_index.lease_id())) {
+            continue;
+          }
+
           // call KvDeleteApply
           auto ret = KvDeleteApply(kv_index.id(), new_op_revision);
           if (ret.ok()) {
diff --git a/src/coordinator/kv_control_kv.cc b/src/coordinator/kv_control_kv.cc
index 1ab6ff3..9b9684f 100644
--- a/src/coordinator/kv_control_kv.cc
+++ b/src/coordinator/kv_control_kv.cc
@@ -747,6 +747,13 @@ butil::Status KvControl::KvPutApply(const std::string &key,
   return butil::Status::OK();
 }
 
+bool KvControl::IsKeyOfLease(const std::string &key, int64_t lease_id) {
+  pb::coordinator_internal::KvIndexInternal kv_index;
+  pb::coordinator_internal::KvRevInternal kv_rev;
+  return GetRawKvIndex(key, kv_index).ok() && GetRawKvRev(kv_index.mod_revision(), kv_rev).ok() &&
+         !kv_rev.kv().is_deleted() && kv_rev.kv().lease() == lease_id;
+}
+
 butil::Status KvControl::KvDeleteApply(const std::string &key,
                                        const pb::coordinator_internal::RevisionInternal &op_revision) {
   DINGO_LOG(INFO) << "KvDeleteApply, key: " << key << "(" << Helper::StringToHex(key)
diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 5492594..f58859c 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -201,12 +201,12 @@ butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal:
     lease_with_keys = std::move(keys_iter->second);
 
     for (const auto &key : lease_with_keys.keys) {
-      std::vector<pb::version::Kv> prev_kvs;
-      int64_t deleted_count = 0;
-      auto ret_status = KvDeleteRange(key, std::string(), false, false, deleted_count, prev_kvs, meta_increment);
-      if (!ret_status.ok()) {
-        DINGO_LOG(ERROR) << "DeleteRawKv failed, key: " << key;
-      }
+      // a put of the key may not be applied yet, so the state machine decides if the key belongs to the lease
+      auto *kv_index_increment = meta_increment.add_kv_indexes();
+      kv_index_increment->set_id(key);
+      kv_index_increment->set_op_type(::dingodb::pb::coordinator_internal::MetaIncrementOpType::UPDATE);
+      kv_index_increment->set_event_type(pb::coordinator_internal::KvIndexEventType::KV_INDEX_EVENT_TYPE_DELETE);
+      kv_index_increment->set_lease_id(lease_id);
     }
 
     // delete lease from map
-- 
2.43.0


From e6481bfbfa63d00a88a6469ed04b835c34b78ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:13 +0000
Subject: [PATCH 31/45] fix: a key put under a lease while it is deleted, or
 whose delete failed, outlived the lease

---
 src/coordinator/kv_control_lease.cc | 6 +++++-
 src/server/version_service.cc       | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index f58859c..42a212f 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -257,7 +257,11 @@ butil::Status KvControl::LeaseQuery(int64_t lease_id, bool get_keys, int64_t &gr
   }
 
   if (get_keys) {
-    keys = it->second.keys;
+    for (const auto &key : it->second.keys) {
+      if (IsKeyOfLease(key, lease_id)) {
+        keys.insert(key);
+      }
+    }
   }
 
   return butil::Status::OK();
diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index 29ef7ef..1c01334 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -569,7 +569,9 @@ void DoKvDeleteRange(google::protobuf::RpcController* /*controller*/, const pb::
   std::vector<pb::version::Kv> prev_kvs;
   int64_t deleted_count = 0;
 
-  auto ret = kv_control->KvDeleteRange(request->key(), request->range_end(), request->need_prev_kv(), true,
+  // the keys stay in the key set of their lease, a put of the same key may be on its way. The state machine deletes only
+  // the keys that belong to the lease when it is revoked.
+  auto ret = kv_control->KvDeleteRange(request->key(), request->range_end(), request->need_prev_kv(), false,
                                        deleted_count, prev_kvs, meta_increment);
   if (!ret.ok()) {
     response->mutable_error()->set_errcode(static_cast<pb::error::Errno>(ret.error_code()));
-- 
2.43.0


From 6cad35ab312cffab22b9655b383787ce38d74a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:24 +0000
Subject: [PATCH 32/45] fix: a lease whose grant or revocation could not be
 written was accepted or never expired

---
 src/coordinator/kv_control.h        |  6 ++++++
 src/coordinator/kv_control_lease.cc | 32 ++++++++++++++++++++++++++++-
 src/server/version_service.cc       |  4 ++++
 3 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/src/coordinator/kv_control.h b/src/coordinator/kv_control.h
index e79136c..3655fc5 100644
--- a/src/coordinator/kv_control.h
+++ b/src/coordinator/kv_control.h
@@ -217,6 +217,12 @@ class KvControl : public MetaControl {
   // lease timeout/revoke task
   void CompactionTask();
 
+  // RollbackLeases
+  // take back what LeaseGrant/LeaseRevoke changed in lease_to_key_map_, because the meta_increment is not written
+  // in:  meta_increment
+  // in:  has_mutex_locked
+  void RollbackLeases(const pb::coordinator_internal::MetaIncrement &meta_increment, bool has_mutex_locked = false);
+
   // lease
   butil::Status LeaseGrant(int64_t lease_id, int64_t ttl_seconds, int64_t &granted_id, int64_t &granted_ttl_seconds,
                            pb::coordinator_internal::MetaIncrement &meta_increment);
diff --git a/src/coordinator/kv_control_lease.cc b/src/coordinator/kv_control_lease.cc
index 42a212f..dbc78c0 100644
--- a/src/coordinator/kv_control_lease.cc
+++ b/src/coordinator/kv_control_lease.cc
@@ -111,7 +111,10 @@ butil::Status KvControl::LeaseGrant(int64_t lease_id, int64_t ttl_seconds, int64
   // update lease_to_key_map_
   {
     BAIDU_SCOPED_LOCK(lease_to_key_map_mutex_);
-    lease_to_key_map_.emplace(lease_with_keys.lease.id(), lease_with_keys);
+    if (!lease_to_key_map_.emplace(lease_with_keys.lease.id(), lease_with_keys).second) {
+      DINGO_LOG(WARNING) << "lease id " << granted_id << " already exists";
+      return butil::Status(pb::error::Errno::ELEASE_NOT_EXISTS_OR_EXPIRED, "lease id %lu already exists", granted_id);
+    }
   }
 
   return butil::Status::OK();
@@ -220,6 +223,31 @@ butil::Status KvControl::LeaseRevoke(int64_t lease_id, pb::coordinator_internal:
   return butil::Status::OK();
 }
 
+void KvControl::RollbackLeases(const pb::coordinator_internal::MetaIncrement &meta_increment, bool has_mutex_locked) {
+  if (!has_mutex_locked) {
+    bthread_mutex_lock(&lease_to_key_map_mutex_);
+  }
+
+  for (const auto &lease_increment : meta_increment.leases()) {
+    if (lease_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::CREATE) {
+      lease_to_key_map_.erase(lease_increment.id());
+    } else if (lease_increment.op_type() == pb::coordinator_internal::MetaIncrementOpType::DELETE) {
+      KvLeaseWithKeys lease_with_keys;
+      lease_with_keys.lease = lease_increment.lease();
+      for (const auto &kv_index : meta_increment.kv_indexes()) {
+        if (kv_index.lease_id() == lease_increment.id()) {
+          lease_with_keys.keys.insert(kv_index.id());
+        }
+      }
+      lease_to_key_map_.emplace(lease_increment.id(), lease_with_keys);
+    }
+  }
+
+  if (!has_mutex_locked) {
+    bthread_mutex_unlock(&lease_to_key_map_mutex_);
+  }
+}
+
 butil::Status KvControl::ListLeases(std::vector<pb::coordinator_internal::LeaseInternal> &leases) {
   butil::FlatMap<int64_t, pb::coordinator_internal::LeaseInternal> version_lease_map;
   kv_lease_map_.GetRawMapCopy(version_lease_map);
@@ -347,8 +375,10 @@ void KvControl::LeaseTask() {
     // submit meta_increment with mutex locked
     // if we do this without lock, there maybe KvPut before LeaseRevoke, which will cause data inconsistency
     if (meta_increment.ByteSizeLong() > 0 && IsLeader()) {
+      auto submitted_increment = meta_increment;
       auto ret = SubmitMetaIncrementSync(meta_increment);
       if (!ret.ok()) {
+        RollbackLeases(submitted_increment, true);
         DINGO_LOG(ERROR) << "SubmitMetaIncrementSync failed, status: " << ret;
       }
     }
diff --git a/src/server/version_service.cc b/src/server/version_service.cc
index 1c01334..d245602 100644
--- a/src/server/version_service.cc
+++ b/src/server/version_service.cc
@@ -160,9 +160,11 @@ void DoLeaseRevoke(google::protobuf::RpcController* /*controller*/, const pb::ve
   ctx->SetRegionId(Constant::kKvRegionId);
   ctx->SetTracker(done->Tracker());
 
+  auto submitted_increment = meta_increment;
   // this is a async operation will be block by closure
   auto ret2 = raft_engine->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), meta_increment));
   if (!ret2.ok()) {
+    kv_control->RollbackLeases(submitted_increment);
     DINGO_LOG(ERROR) << "LeaseRevoke failed:  lease_id=" << request->id() << ", error=" << ret2.error_str();
     ServiceHelper::SetError(response->mutable_error(), ret2.error_code(), ret2.error_str());
     return;
@@ -214,9 +216,11 @@ void DoLeaseGrant(google::protobuf::RpcController* /*controller*/, const pb::ver
   ctx->SetRegionId(Constant::kKvRegionId);
   ctx->SetTracker(done->Tracker());
 
+  auto submitted_increment = meta_increment;
   // this is a async operation will be block by closure
   auto ret2 = raft_engine->Write(ctx, WriteDataBuilder::BuildWrite(ctx->CfName(), meta_increment));
   if (!ret2.ok()) {
+    kv_control->RollbackLeases(submitted_increment);
     DINGO_LOG(ERROR) << "LeaseGrant failed:  lease_id=" << granted_id << ", error=" << ret2.error_str();
     ServiceHelper::SetError(response->mutable_error(), ret2.error_code(), ret2.error_str());
     return;
-- 
2.43.0


From 1a92e3d9efff488331f1944396e4edded232bcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:55 +0000
Subject: [PATCH 33/45] fix: a crash while a split was applied left the regions
 changed on one side only, or the store unable to start

The child was changed before the parent, in separate writes: the replayed
split found a child that was no longer standby (or already existed) and gave
up, bumped the child's epoch twice, or aborted. Change both in one write, and
finish the pending snapshot (and re-enable changes) at startup.
---
 src/engine/raft_store_engine.cc   |  8 +++++++-
 src/handler/raft_apply_handler.cc | 34 ++++++++++---------------------
 src/meta/store_meta_manager.cc    | 25 +++++++++++++++++++++++
 src/meta/store_meta_manager.h     |  3 +++
 4 files changed, 46 insertions(+), 24 deletions(-)

diff --git a/src/engine/raft_store_engine.cc b/src/engine/raft_store_engine.cc
index 9a6dc73..a204b77 100644
--- a/src/engine/raft_store_engine.cc
+++ b/src/engine/raft_store_engine.cc
@@ -39,6 +39,7 @@
 #include "event/store_state_machine_event.h"
 #include "fmt/core.h"
 #include "glog/logging.h"
+#include "handler/raft_apply_handler.h"
 #include "log/rocks_log_storage.h"
 #include "meta/store_meta_manager.h"
 #include "mvcc/codec.h"
@@ -135,7 +136,12 @@ bool RaftStoreEngine::Recover() {
         if (node != nullptr) {
           auto ctx = std::make_shared<Context>();
           ctx->SetRegionId(region->Id());
-          node->Snapshot(ctx, true);
+          // finish what the split/merge, which needs the snapshot, has left behind
+          auto* done = new SplitHandler::SplitClosure(region->Id());
+          ctx->SetDone(done);
+          if (!node->Snapshot(ctx, true).ok()) {
+            delete done;
+          }
         }
       }
 
diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 044a0cb..1950478 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -195,8 +195,8 @@ static void LaunchAyncSaveSnapshot(store::RegionPtr region) {  // NOLINT
   }
 
   if (!is_success) {
-    store_region_meta->UpdateNeedBootstrapDoSnapshot(region, false);
     store_region_meta->UpdateTemporaryDisableChange(region, false);
+    store_region_meta->UpdateNeedBootstrapDoSnapshot(region, false);
     DINGO_LOG(ERROR) << fmt::format(
         "[split.spliting][region({})] snapshot permanently failed, clearing TemporaryDisableChange", region->Id());
   }
@@ -313,12 +313,9 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   to_region->UpdateLastSplitTimestamp();
   from_region->UpdateLastSplitTimestamp();
 
-  // set child region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(to_region, to_region->Epoch().version() + 1, to_range, "split child");
-
-  // set parent region version/range/state
-  store_region_meta->UpdateEpochVersionAndRange(from_region, from_region->Epoch().version() + 1, from_range,
-                                                "split parent");
+  // set parent/child region version/range/state
+  store_region_meta->UpdateSplitRegions(from_region, from_region->Epoch().version() + 1, from_range, to_region,
+                                        to_region->Epoch().version() + 1, to_range);
 
   DINGO_LOG(INFO) << fmt::format(
       "[split.spliting][job_id({}).region({}->{})] splited, child region({}/{}) parent region({}/{})", request.job_id(),
@@ -337,10 +334,6 @@ bool HandlePreCreateRegionSplit(const pb::raft::SplitRequest &request, store::Re
   // Do child region snapshot
   LaunchAyncSaveSnapshot(to_region);
 
-  // update StoreRegionState to NORMAL
-  store_region_meta->UpdateState(from_region, pb::common::StoreRegionState::NORMAL);
-  store_region_meta->UpdateState(to_region, pb::common::StoreRegionState::NORMAL);
-
   if (to_region->Type() == pb::common::RegionType::INDEX_REGION) {
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
     const auto &from_definition = from_region->Definition();
@@ -556,8 +549,12 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   child_range.set_end_key(request.split_key());
   *(definition.mutable_range()) = child_range;
 
-  auto child_region = CreateNewRegion(raft_store_engine, parent_node, definition, parent_region->Id());
+  // The server may have died after it had created the child region.
+  auto child_region = store_region_meta->GetRegion(child_region_id);
   if (child_region == nullptr) {
+    child_region = CreateNewRegion(raft_store_engine, parent_node, definition, parent_region->Id());
+  }
+  if (child_region == nullptr || child_region->ParentId() != parent_region->Id()) {
     DINGO_LOG(FATAL) << fmt::format("[split.spliting][region({}->{})] create child region failed.", parent_region_id,
                                     child_region_id);
     return false;
@@ -574,10 +571,8 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   pb::common::Range parent_range;
   parent_range.set_start_key(request.split_key());
   parent_range.set_end_key(old_parent_range.end_key());
-  store_region_meta->UpdateEpochVersionAndRange(parent_region, parent_region->Epoch().version() + 1, parent_range,
-                                                "split parent");
-  // store_region_meta->UpdateEpochVersionAndRange(child_region, child_region->Epoch().version() + 1, child_range,
-  //                                               "child parent");
+  store_region_meta->UpdateSplitRegions(parent_region, parent_region->Epoch().version() + 1, parent_range, child_region,
+                                        child_region->Epoch().version(), child_range);
 
   // set last split time
   parent_region->UpdateLastSplitTimestamp();
@@ -592,13 +587,6 @@ bool HandlePostCreateRegionSplit(const pb::raft::SplitRequest &request, store::R
   // Do region snapshot
   LaunchAyncSaveSnapshot(parent_region);
 
-  // Set do snapshot when bootstrap
-  store_region_meta->UpdateNeedBootstrapDoSnapshot(child_region, true);
-
-  // update to NORMAL after save snapshot in SplitClosure::Run
-  store_region_meta->UpdateState(parent_region, pb::common::StoreRegionState::NORMAL);
-  store_region_meta->UpdateState(child_region, pb::common::StoreRegionState::NORMAL);
-
   if (parent_region->Type() == pb::common::RegionType::INDEX_REGION) {
 #if WITH_VECTOR_INDEX_USE_DOCUMENT_SPEEDUP
     const auto &parent_definition = parent_region->Definition();
diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index 6a8edee..55b5652 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1042,6 +1042,31 @@ void StoreRegionMeta::UpdateEpochVersionAndRange(int64_t region_id, int64_t vers
   }
 }
 
+void StoreRegionMeta::UpdateSplitRegions(store::RegionPtr parent, int64_t parent_version,
+                                         const pb::common::Range& parent_range, store::RegionPtr child,
+                                         int64_t child_version, const pb::common::Range& child_range) {
+  assert(parent != nullptr && child != nullptr);
+
+  child->SetEpochVersionAndRange(child_version, child_range);
+  parent->SetEpochVersionAndRange(parent_version, parent_range);
+
+  // The regions do a snapshot after the split, when the server dies before it is done it is made up for at startup.
+  bool need_do_snapshot = parent->GetStoreEngineType() == pb::common::StorageEngine::STORE_ENG_RAFT_STORE;
+  std::vector<pb::common::KeyValue> kvs;
+  for (const auto& region : {parent, child}) {
+    region->SetNeedBootstrapDoSnapshot(need_do_snapshot);
+    region->SetState(pb::common::StoreRegionState::NORMAL);
+    region->AppendHistoryState(pb::common::StoreRegionState::NORMAL);
+    kvs.push_back(*TransformToKv(region));
+  }
+
+  DINGO_LOG(INFO) << fmt::format("[region.meta] split region, parent({}/{}/{}) child({}/{}/{})", parent->Id(),
+                                 parent->EpochToString(), parent->RangeToString(), child->Id(), child->EpochToString(),
+                                 child->RangeToString());
+
+  meta_writer_->Put(kvs);
+}
+
 void StoreRegionMeta::UpdateEpochConfVersion(store::RegionPtr region, int64_t version) {
   assert(region != nullptr);
   if (version <= region->Epoch().conf_version()) {
diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index 5d8548b..352444a 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -358,6 +358,9 @@ class StoreRegionMeta : public TransformKvAble {
                                   const std::string& trace);
   void UpdateEpochVersionAndRange(int64_t region_id, int64_t version, const pb::common::Range& range,
                                   const std::string& trace);
+  // Change parent and child region of a split in one write, so that a crash never leaves only one of them changed.
+  void UpdateSplitRegions(store::RegionPtr parent, int64_t parent_version, const pb::common::Range& parent_range,
+                          store::RegionPtr child, int64_t child_version, const pb::common::Range& child_range);
   void UpdateEpochConfVersion(store::RegionPtr region, int64_t version);
   void UpdateEpochConfVersion(int64_t region_id, int64_t version);
   void UpdateSnapshotEpochVersion(store::RegionPtr region, int64_t version, const std::string& trace);
-- 
2.43.0


From a0b91e8be95f6f66e7ecaf9afe13e512192fedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:10 +0000
Subject: [PATCH 34/45] fix: a replica that caught up on the source region of a
 merge applied writes the others had refused

---
 src/raft/store_state_machine.cc | 88 ++++++++++++++++++---------------
 src/raft/store_state_machine.h  |  3 ++
 2 files changed, 50 insertions(+), 41 deletions(-)

diff --git a/src/raft/store_state_machine.cc b/src/raft/store_state_machine.cc
index 2b41109..27cc4d1 100644
--- a/src/raft/store_state_machine.cc
+++ b/src/raft/store_state_machine.cc
@@ -107,6 +107,38 @@ int StoreStateMachine::DispatchEvent(dingodb::EventType event_type, std::shared_
   return 0;
 }
 
+butil::Status StoreStateMachine::PrepareApply(const pb::raft::RaftCmdRequest& raft_cmd) {
+  // update apply max ts
+  for (const auto& request : raft_cmd.requests()) {
+    if (BAIDU_LIKELY(request.ts() > 0)) {
+      region_->SetRawAppliedMaxTs(request.ts());
+    }
+  }
+
+  // Check region state
+  auto region_state = region_->State();
+  if (BAIDU_UNLIKELY(region_state == pb::common::StoreRegionState::DELETING ||
+                     region_state == pb::common::StoreRegionState::DELETED ||
+                     region_state == pb::common::StoreRegionState::MERGING ||
+                     region_state == pb::common::StoreRegionState::ORPHAN ||
+                     region_state == pb::common::StoreRegionState::TOMBSTONE)) {
+    std::string s = fmt::format("Region({}) is {} state, abandon apply log", region_->Id(),
+                                pb::common::StoreRegionState_Name(region_state));
+    DINGO_LOG(WARNING) << fmt::format("[raft.sm][region({})] {}", region_->Id(), s);
+    return butil::Status(pb::error::EREGION_UNAVAILABLE, s);
+  }
+
+  // Check region epoch
+  if (BAIDU_UNLIKELY(!Helper::IsEqualRegionEpoch(raft_cmd.header().epoch(), region_->Epoch()))) {
+    std::string s = fmt::format("Region({}) epoch is not match, region_epoch({}) raft_cmd_epoch({})", region_->Id(),
+                                region_->EpochToString(), Helper::RegionEpochToString(raft_cmd.header().epoch()));
+    DINGO_LOG(WARNING) << fmt::format("[raft.sm][region({})] {}", region_->Id(), s);
+    return butil::Status(pb::error::EREGION_VERSION, s);
+  }
+
+  return butil::Status();
+}
+
 void StoreStateMachine::on_apply(braft::Iterator& iter) {
   BAIDU_SCOPED_LOCK(apply_mutex_);
 
@@ -141,39 +173,10 @@ void StoreStateMachine::on_apply(braft::Iterator& iter) {
       CHECK(raft_cmd->ParseFromZeroCopyStream(&wrapper));
     }
 
-    // update apply max ts
-    for (const auto& request : raft_cmd->requests()) {
-      if (BAIDU_LIKELY(request.ts() > 0)) {
-        region_->SetRawAppliedMaxTs(request.ts());
-      }
-    }
-
-    bool need_apply = true;
-    // Check region state
-    auto region_state = region_->State();
-    if (BAIDU_UNLIKELY(region_state == pb::common::StoreRegionState::DELETING ||
-                       region_state == pb::common::StoreRegionState::DELETED ||
-                       region_state == pb::common::StoreRegionState::MERGING ||
-                       region_state == pb::common::StoreRegionState::ORPHAN ||
-                       region_state == pb::common::StoreRegionState::TOMBSTONE)) {
-      std::string s = fmt::format("Region({}) is {} state, abandon apply log", region_->Id(),
-                                  pb::common::StoreRegionState_Name(region_state));
-      DINGO_LOG(WARNING) << fmt::format("[raft.sm][region({})] {}", region_->Id(), s);
-      if (ctx != nullptr) {
-        ctx->SetStatus(butil::Status(pb::error::EREGION_UNAVAILABLE, s));
-      }
-      need_apply = false;
-    }
-
-    // Check region epoch
-    if (BAIDU_UNLIKELY(need_apply && !Helper::IsEqualRegionEpoch(raft_cmd->header().epoch(), region_->Epoch()))) {
-      std::string s = fmt::format("Region({}) epoch is not match, region_epoch({}) raft_cmd_epoch({})", region_->Id(),
-                                  region_->EpochToString(), Helper::RegionEpochToString(raft_cmd->header().epoch()));
-      DINGO_LOG(WARNING) << fmt::format("[raft.sm][region({})] {}", region_->Id(), s);
-      if (ctx != nullptr) {
-        ctx->SetStatus(butil::Status(pb::error::EREGION_VERSION, s));
-      }
-      need_apply = false;
+    auto check_status = PrepareApply(*raft_cmd);
+    bool need_apply = check_status.ok();
+    if (BAIDU_UNLIKELY(!need_apply && ctx != nullptr)) {
+      ctx->SetStatus(check_status);
     }
 
     DINGO_LOG(DEBUG) << fmt::format(
@@ -266,15 +269,18 @@ int32_t StoreStateMachine::CatchUpApplyLog(const std::vector<pb::raft::LogEntry>
           entry.index(), applied_index_,
           raft_cmd->requests().empty() ? "" : pb::raft::CmdType_Name(raft_cmd->requests().at(0).cmd_type()));
 
-      auto event = std::make_shared<SmApplyEvent>();
-      event->region = region_;
-      event->engine = raw_engine_;
-      event->raft_cmd = raft_cmd;
-      event->region_metrics = region_metrics_;
-      event->term_id = entry.term();
-      event->log_id = entry.index();
+      // same check as on_apply, the log must have the same effect on every peer
+      if (BAIDU_LIKELY(PrepareApply(*raft_cmd).ok())) {
+        auto event = std::make_shared<SmApplyEvent>();
+        event->region = region_;
+        event->engine = raw_engine_;
+        event->raft_cmd = raft_cmd;
+        event->region_metrics = region_metrics_;
+        event->term_id = entry.term();
+        event->log_id = entry.index();
 
-      DispatchEvent(EventType::kSmApply, event);
+        DispatchEvent(EventType::kSmApply, event);
+      }
 
       applied_term_ = entry.term();
       applied_index_ = entry.index();
diff --git a/src/raft/store_state_machine.h b/src/raft/store_state_machine.h
index 733a350..2c55fbe 100644
--- a/src/raft/store_state_machine.h
+++ b/src/raft/store_state_machine.h
@@ -82,6 +82,9 @@ class StoreStateMachine : public BaseStateMachine {
  private:
   int DispatchEvent(dingodb::EventType, std::shared_ptr<dingodb::Event> event);
 
+  // Whether a log entry takes effect on the region, which is the same on every peer.
+  butil::Status PrepareApply(const pb::raft::RaftCmdRequest& raft_cmd);
+
   std::string str_node_id_;
   store::RegionPtr region_;
 
-- 
2.43.0


From 8139cc54cac424c5e8c50c2b02745c9292d7f0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:50 +0000
Subject: [PATCH 35/45] fix: a crash while a merge was committed left the
 source region merging and the target unable to change

The regions' epochs, ranges and the source's TOMBSTONE state were written one
by one; after a crash in between the replayed entry was refused for its epoch
and the rest was never done.
---
 src/handler/raft_apply_handler.cc | 18 +++++++-----------
 src/meta/store_meta_manager.cc    | 20 ++++++++++++++++++++
 src/meta/store_meta_manager.h     |  3 +++
 3 files changed, 30 insertions(+), 11 deletions(-)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 1950478..6827c9a 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -949,17 +949,16 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
     }
     int64_t new_version = std::max(request.source_region_epoch().version(), target_region->Epoch().version()) + 1;
 
-    store_region_meta->UpdateEpochVersionAndRange(target_region, new_version, new_range, "merge target");
-  }
-
-  {
     // Set source region
     // range: [0xFFFFFFF, source_region.end_key)
     // epoch: source_epoch + 1
-    int64_t new_version = source_region->Epoch().version() + 1;
-    pb::common::Range new_range = source_region->Range(false);
-    new_range.set_start_key(Helper::GenMaxStartKey());
-    store_region_meta->UpdateEpochVersionAndRange(source_region, new_version, new_range, "merge source");
+    // state: TOMBSTONE
+    int64_t new_source_version = source_region->Epoch().version() + 1;
+    pb::common::Range new_source_range = source_region->Range(false);
+    new_source_range.set_start_key(Helper::GenMaxStartKey());
+
+    store_region_meta->UpdateMergeRegions(target_region, new_version, new_range, source_region, new_source_version,
+                                          new_source_range);
   }
 
   // Set apply max ts
@@ -970,9 +969,6 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
   int64_t txn_max_ts = std::max(target_region->TxnAccessMaxTs(), source_region->TxnAccessMaxTs());
   target_region->SetTxnAccessMaxTs(txn_max_ts);
 
-  // Set source region TOMBSTONE state
-  store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::TOMBSTONE);
-
   // Do snapshot
   LaunchAyncSaveSnapshot(target_region);
 
diff --git a/src/meta/store_meta_manager.cc b/src/meta/store_meta_manager.cc
index 55b5652..fdd7f00 100644
--- a/src/meta/store_meta_manager.cc
+++ b/src/meta/store_meta_manager.cc
@@ -1067,6 +1067,26 @@ void StoreRegionMeta::UpdateSplitRegions(store::RegionPtr parent, int64_t parent
   meta_writer_->Put(kvs);
 }
 
+void StoreRegionMeta::UpdateMergeRegions(store::RegionPtr target, int64_t target_version,
+                                         const pb::common::Range& target_range, store::RegionPtr source,
+                                         int64_t source_version, const pb::common::Range& source_range) {
+  assert(target != nullptr && source != nullptr);
+
+  target->SetEpochVersionAndRange(target_version, target_range);
+  target->SetNeedBootstrapDoSnapshot(target->GetStoreEngineType() == pb::common::StorageEngine::STORE_ENG_RAFT_STORE);
+
+  source->SetEpochVersionAndRange(source_version, source_range);
+  source->SetState(pb::common::StoreRegionState::TOMBSTONE);
+  source->AppendHistoryState(pb::common::StoreRegionState::TOMBSTONE);
+
+  DINGO_LOG(INFO) << fmt::format("[region.meta] merge region, target({}/{}/{}) source({}/{}/{})", target->Id(),
+                                 target->EpochToString(), target->RangeToString(), source->Id(),
+                                 source->EpochToString(), source->RangeToString());
+
+  std::vector<pb::common::KeyValue> kvs = {*TransformToKv(target), *TransformToKv(source)};
+  meta_writer_->Put(kvs);
+}
+
 void StoreRegionMeta::UpdateEpochConfVersion(store::RegionPtr region, int64_t version) {
   assert(region != nullptr);
   if (version <= region->Epoch().conf_version()) {
diff --git a/src/meta/store_meta_manager.h b/src/meta/store_meta_manager.h
index 352444a..ffef3b0 100644
--- a/src/meta/store_meta_manager.h
+++ b/src/meta/store_meta_manager.h
@@ -361,6 +361,9 @@ class StoreRegionMeta : public TransformKvAble {
   // Change parent and child region of a split in one write, so that a crash never leaves only one of them changed.
   void UpdateSplitRegions(store::RegionPtr parent, int64_t parent_version, const pb::common::Range& parent_range,
                           store::RegionPtr child, int64_t child_version, const pb::common::Range& child_range);
+  // Change target and source region of a merge in one write, the source region becomes TOMBSTONE.
+  void UpdateMergeRegions(store::RegionPtr target, int64_t target_version, const pb::common::Range& target_range,
+                          store::RegionPtr source, int64_t source_version, const pb::common::Range& source_range);
   void UpdateEpochConfVersion(store::RegionPtr region, int64_t version);
   void UpdateEpochConfVersion(int64_t region_id, int64_t version);
   void UpdateSnapshotEpochVersion(store::RegionPtr region, int64_t version, const std::string& trace);
-- 
2.43.0


From c3d8cc0105b585f7f09561bf9f4cb00ae64ee431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:26 +0000
Subject: [PATCH 36/45] fix: looking for a log entry and finding it leaked a
 rocksdb iterator, which pins memory and files for good

---
 src/log/rocks_log_storage.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 7116164..24c5617 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1368,6 +1368,7 @@ bool RocksLogStorage::HasSpecificLog(int64_t region_id, int64_t begin_index, int
     log_entry.out_data.swap(value);
 
     if (matcher(log_entry)) {
+      delete it;
       return true;
     }
   }
-- 
2.43.0


From 0df8e7ddf1a671a82014372c8add9eeea13d7c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:19 +0000
Subject: [PATCH 37/45] fix: a vector index which needed the raft log again
 could not stop its truncation

The index a client keeps the log from was never lowered: neither 0 (forbid
truncation while the vector index is loaded) nor the log id of a snapshot had an
effect after a follower without vector index had given up all logs (INT64_MAX).
---
 src/log/rocks_log_storage.cc | 16 ++--------------
 1 file changed, 2 insertions(+), 14 deletions(-)

diff --git a/src/log/rocks_log_storage.cc b/src/log/rocks_log_storage.cc
index 24c5617..76c0a41 100644
--- a/src/log/rocks_log_storage.cc
+++ b/src/log/rocks_log_storage.cc
@@ -1237,22 +1237,10 @@ int RocksLogStorage::TruncatePrefix(ClientType client_type, int64_t region_id, i
 
     first_index = it->second.first_index.load(std::memory_order_acquire);
     last_index = it->second.last_index.load(std::memory_order_acquire);
-    if (keep_first_index <= first_index) {
-      DINGO_LOG(INFO) << fmt::format("[raft.log][{}.{}.{}] truncate prefix ignore, keep_first_index({}).", region_id,
-                                     first_index, last_index, keep_first_index);
-      return 0;
-    }
-
+    // A client may also lower its index, the logs which it has not given up are kept from now on.
     for (auto& truncate_prefix : it->second.truncate_prefixs) {
       if (truncate_prefix.first == client_type) {
-        if (keep_first_index <= truncate_prefix.second) {
-          DINGO_LOG(INFO) << fmt::format(
-              "[raft.log][{}.{}.{}] truncate prefix ignore, client_type({}) keep_first_index({}/{}).", region_id,
-              first_index, last_index, ClientTypeName(client_type), truncate_prefix.second, keep_first_index);
-          return 0;
-        } else {
-          truncate_prefix.second = keep_first_index;
-        }
+        truncate_prefix.second = keep_first_index;
       }
 
       min_keep_first_index = std::min(min_keep_first_index, truncate_prefix.second);
-- 
2.43.0


From 833809bd7bdf4fa128637195d42fc77a8b8cdb1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:29 +0000
Subject: [PATCH 38/45] fix: a vector index which was built or loaded missed
 the last log entry applied

GetDataEntries(begin, end) does not return end.
---
 src/vector/vector_index_manager.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vector/vector_index_manager.cc b/src/vector/vector_index_manager.cc
index be268b5..0905ddb 100644
--- a/src/vector/vector_index_manager.cc
+++ b/src/vector/vector_index_manager.cc
@@ -1185,7 +1185,7 @@ butil::Status VectorIndexManager::CatchUpLogToVectorIndex(VectorIndexWrapperPtr
 
   for (int i = 0;; ++i) {
     int64_t start_log_id = vector_index->ApplyLogId() + 1;
-    int64_t end_log_id = raft_meta->AppliedId();
+    int64_t end_log_id = raft_meta->AppliedId() + 1;
     if (end_log_id - start_log_id < FLAGS_vector_catchup_log_min_gap) {
       break;
     }
@@ -1218,7 +1218,7 @@ butil::Status VectorIndexManager::CatchUpLogToVectorIndex(VectorIndexWrapperPtr
           bvar_vector_index_catchup_latency_last_round << (Helper::TimestampMs() - start_time););
 
     int64_t start_log_id = vector_index->ApplyLogId() + 1;
-    int64_t end_log_id = raft_meta->AppliedId();
+    int64_t end_log_id = raft_meta->AppliedId() + 1;
     // second ground replay wal
     auto status = ReplayWalToVectorIndex(vector_index, start_log_id, end_log_id);
     if (!status.ok()) {
-- 
2.43.0


From 5f8eb226e0ddb486fd27537ea5910f90a8e1db13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:29 +0000
Subject: [PATCH 39/45] fix: after a restart the entries applied again skipped
 a vector index which did not have them

A saved apply log id may be ahead of the applied id of the region.
---
 src/vector/vector_index.cc | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/vector/vector_index.cc b/src/vector/vector_index.cc
index 7b086b5..e59f81d 100644
--- a/src/vector/vector_index.cc
+++ b/src/vector/vector_index.cc
@@ -610,15 +610,9 @@ void VectorIndexWrapper::UpdateVectorIndex(VectorIndexPtr vector_index, const st
 
     ready_.store(true);
 
-    int64_t apply_log_id = ApplyLogId();
+    // The log entries up to this one are in the new index, a saved id may be ahead of it after a restart.
+    SetApplyLogId(vector_index->ApplyLogId());
     int64_t snapshot_log_id = SnapshotLogId();
-    DINGO_LOG(INFO) << fmt::format(
-        "[vector_index.wrapper][index_id({})][trace({})] update vector index, apply_log_id({}/{}) "
-        "snapshot_log_id({}/{}).",
-        Id(), trace, apply_log_id, vector_index->ApplyLogId(), snapshot_log_id, vector_index->SnapshotLogId());
-    if (apply_log_id < vector_index->ApplyLogId()) {
-      SetApplyLogId(vector_index->ApplyLogId());
-    }
     if (snapshot_log_id < vector_index->SnapshotLogId()) {
       SetSnapshotLogId(vector_index->SnapshotLogId());
     }
-- 
2.43.0


From f1eb06d6a3446344f19c7cb112f2479c01622a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:29 +0000
Subject: [PATCH 40/45] fix: a vector index built from the log missed or had
 vectors which the region has or has not

Transactions and restored vectors were ignored, entries refused for their
epoch were not, and a batch with a vector twice was refused by the index.
---
 src/vector/vector_index_manager.cc | 104 +++++++++++++++++++----------
 1 file changed, 67 insertions(+), 37 deletions(-)

diff --git a/src/vector/vector_index_manager.cc b/src/vector/vector_index_manager.cc
index 0905ddb..2647b90 100644
--- a/src/vector/vector_index_manager.cc
+++ b/src/vector/vector_index_manager.cc
@@ -19,6 +19,7 @@
 #include <cstdint>
 #include <memory>
 #include <string>
+#include <unordered_set>
 #include <vector>
 
 #include "bthread/bthread.h"
@@ -789,63 +790,92 @@ butil::Status VectorIndexManager::ReplayWalToVectorIndex(VectorIndexPtr vector_i
 
   std::vector<pb::common::VectorWithId> vectors;
   vectors.reserve(Constant::kBuildVectorIndexBatchSize);
+  // The vector ids in vectors, a batch must not have a vector twice.
+  std::unordered_set<int64_t> pending_ids;
   std::vector<int64_t> ids;
   ids.reserve(Constant::kBuildVectorIndexBatchSize);
 
+  auto flush_vectors = [&]() {
+    if (!vectors.empty()) {
+      vector_index->UpsertByParallel(vectors, false);
+      vectors.clear();
+      pending_ids.clear();
+    }
+  };
+  auto flush_ids = [&]() {
+    if (!ids.empty()) {
+      vector_index->DeleteByParallel(ids, false);
+      ids.clear();
+    }
+  };
+  auto add_vectors = [&](const auto& add_vectors) {
+    flush_ids();
+    for (const auto& vector : add_vectors) {
+      if (vector.id() < min_vector_id || vector.id() >= max_vector_id) {
+        continue;
+      }
+      if (!pending_ids.insert(vector.id()).second) {
+        flush_vectors();
+        pending_ids.insert(vector.id());
+      }
+      vectors.push_back(vector);
+    }
+    if (vectors.size() >= Constant::kBuildVectorIndexBatchSize) {
+      flush_vectors();
+    }
+  };
+  auto delete_vectors = [&](const auto& delete_ids) {
+    flush_vectors();
+    for (auto vector_id : delete_ids) {
+      if (vector_id >= min_vector_id && vector_id < max_vector_id) {
+        ids.push_back(vector_id);
+      }
+    }
+    if (ids.size() >= Constant::kBuildVectorIndexBatchSize) {
+      flush_ids();
+    }
+  };
+
+  // The region epoch only grows, so a log entry with an older epoch was refused by the state machine.
+  int64_t epoch_version = vector_index->Epoch().version();
   int64_t last_log_id = vector_index->ApplyLogId();
   auto log_entrys = log_stroage->GetDataEntries(vector_index->Id(), start_log_id, end_log_id);
   for (const auto& log_entry : log_entrys) {
     auto raft_cmd = std::make_shared<pb::raft::RaftCmdRequest>();
     CHECK(raft_cmd->ParseFromString(log_entry->out_data));
-    for (auto& request : *raft_cmd->mutable_requests()) {
+    last_log_id = log_entry->index;
+    if (raft_cmd->header().epoch().version() < epoch_version) {
+      continue;
+    }
+    epoch_version = raft_cmd->header().epoch().version();
+    for (const auto& request : raft_cmd->requests()) {
       switch (request.cmd_type()) {
         case pb::raft::VECTOR_ADD: {
-          if (!ids.empty()) {
-            vector_index->DeleteByParallel(ids, false);
-            ids.clear();
-          }
-
-          for (auto& vector : *request.mutable_vector_add()->mutable_vectors()) {
-            if (vector.id() >= min_vector_id && vector.id() < max_vector_id) {
-              vectors.push_back(vector);
-            }
-          }
-
-          if (vectors.size() >= Constant::kBuildVectorIndexBatchSize) {
-            vector_index->UpsertByParallel(vectors, false);
-            vectors.clear();
-          }
+          add_vectors(request.vector_add().vectors());
           break;
         }
         case pb::raft::VECTOR_DELETE: {
-          if (!vectors.empty()) {
-            vector_index->UpsertByParallel(vectors, false);
-            vectors.clear();
-          }
-
-          for (auto vector_id : request.vector_delete().ids()) {
-            if (vector_id >= min_vector_id && vector_id < max_vector_id) {
-              ids.push_back(vector_id);
-            }
-          }
-          if (ids.size() >= Constant::kBuildVectorIndexBatchSize) {
-            vector_index->DeleteByParallel(ids, false);
-            ids.clear();
-          }
+          delete_vectors(request.vector_delete().ids());
+          break;
+        }
+        case pb::raft::VECTOR_BATCH_ADD: {
+          add_vectors(request.vector_batch_add().vectors());
+          delete_vectors(request.vector_batch_add().delete_vector_ids());
+          break;
+        }
+        case pb::raft::TXN: {
+          const auto& txn_request = request.txn_raft_req().multi_cf_put_and_delete();
+          add_vectors(txn_request.vector_add().vectors());
+          delete_vectors(txn_request.vector_del().ids());
           break;
         }
         default:
           break;
       }
     }
-
-    last_log_id = log_entry->index;
-  }
-  if (!vectors.empty()) {
-    vector_index->UpsertByParallel(vectors, false);
-  } else if (!ids.empty()) {
-    vector_index->DeleteByParallel(ids, false);
   }
+  flush_vectors();
+  flush_ids();
 
   if (last_log_id > vector_index->ApplyLogId()) {
     vector_index->SetApplyLogId(last_log_id);
-- 
2.43.0


From 8f3e6f868c99310a57924c73518d331d3e33c66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:46:29 +0000
Subject: [PATCH 41/45] fix: a log entry being applied while a new vector index
 is switched in was lost in the index

---
 src/raft/store_state_machine.h     |  3 +++
 src/vector/vector_index_manager.cc | 12 ++++++++++++
 2 files changed, 15 insertions(+)

diff --git a/src/raft/store_state_machine.h b/src/raft/store_state_machine.h
index 2c55fbe..c9084ef 100644
--- a/src/raft/store_state_machine.h
+++ b/src/raft/store_state_machine.h
@@ -79,6 +79,9 @@ class StoreStateMachine : public BaseStateMachine {
 
   std::shared_ptr<SnapshotContext> MakeSnapshotContext();
 
+  // No log entry is being applied while it is held.
+  bthread_mutex_t& ApplyMutex() { return apply_mutex_; }
+
  private:
   int DispatchEvent(dingodb::EventType, std::shared_ptr<dingodb::Event> event);
 
diff --git a/src/vector/vector_index_manager.cc b/src/vector/vector_index_manager.cc
index 2647b90..181976d 100644
--- a/src/vector/vector_index_manager.cc
+++ b/src/vector/vector_index_manager.cc
@@ -39,6 +39,7 @@
 #include "proto/file_service.pb.h"
 #include "proto/node.pb.h"
 #include "proto/raft.pb.h"
+#include "raft/store_state_machine.h"
 #include "server/server.h"
 #include "vector/codec.h"
 #include "vector/vector_index.h"
@@ -1242,6 +1243,17 @@ butil::Status VectorIndexManager::CatchUpLogToVectorIndex(VectorIndexWrapperPtr
   {
     start_time = Helper::TimestampMs();
 
+    auto node = Server::GetInstance().GetRaftStoreEngine()->GetNode(vector_index_id);
+    auto state_machine =
+        node != nullptr ? std::dynamic_pointer_cast<StoreStateMachine>(node->GetStateMachine()) : nullptr;
+    if (state_machine == nullptr) {
+      vector_index_wrapper->SetRebuildError();
+      return butil::Status(pb::error::Errno::ERAFT_NOT_FOUND, fmt::format("Not found node {}", vector_index_id));
+    }
+
+    // An entry which is being applied is in neither the logs replayed below nor, afterwards, the new index.
+    BAIDU_SCOPED_LOCK(state_machine->ApplyMutex());
+
     // stop write index
     vector_index_wrapper->SetIsSwitchingVectorIndex(true);
     DEFER(vector_index_wrapper->SetIsSwitchingVectorIndex(false);
-- 
2.43.0


From 0ee72fcafc93c786fc2afd9533d26aad53824e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:32:13 +0000
Subject: [PATCH 42/45] fix: a pushed or requested minimum commit timestamp
 could take a one-phase or async commit past its max_commit_ts

---
 src/engine/txn_engine_helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/engine/txn_engine_helper.cc b/src/engine/txn_engine_helper.cc
index 6421321..c2bd0ce 100644
--- a/src/engine/txn_engine_helper.cc
+++ b/src/engine/txn_engine_helper.cc
@@ -2193,7 +2193,7 @@ int64_t TxnEngineHelper::GenFinalMinCommitTs(store::RegionPtr region, pb::store:
   int64_t region_max_ts = region->TxnAccessMaxTs();
   int64_t min_commit_ts = std::max({region_max_ts, start_ts, for_update_ts}) + 1;
   int64_t final_min_commit_ts = std::max(min_commit_ts, lock_info.min_commit_ts());
-  final_min_commit_ts = (max_commit_ts != 0 && min_commit_ts > max_commit_ts) ? 0 : final_min_commit_ts;
+  final_min_commit_ts = (max_commit_ts != 0 && final_min_commit_ts > max_commit_ts) ? 0 : final_min_commit_ts;
 
   if (final_min_commit_ts > 0) {
     lock_info.set_min_commit_ts(final_min_commit_ts);
-- 
2.43.0


From a6e2ba1590df754de3e63a5faf070fa99275aad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:06:17 +0000
Subject: [PATCH 43/45] fix: after a merge the leader could stamp a raw write
 with a timestamp below one written in the source region

---
 src/handler/raft_apply_handler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handler/raft_apply_handler.cc b/src/handler/raft_apply_handler.cc
index 6827c9a..259c380 100644
--- a/src/handler/raft_apply_handler.cc
+++ b/src/handler/raft_apply_handler.cc
@@ -928,6 +928,12 @@ int CommitMergeHandler::Handle(std::shared_ptr<Context>, store::RegionPtr target
     }
   }
 
+  // The leader of target region may hold timestamps which are older than what the source region has written.
+  auto ts_provider = Server::GetInstance().GetTsProvider();
+  if (ts_provider != nullptr) {
+    ts_provider->SetMinValidTs(source_region->RawAppliedMaxTs());
+  }
+
   FAIL_POINT("before_commit_merge_modify_epoch");
 
   store_region_meta->UpdateState(source_region, pb::common::StoreRegionState::MERGING);
-- 
2.43.0


From 9ff5df866ff85b971c7ca97acade48dec005b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:02 +0000
Subject: [PATCH 44/45] fix: two concurrent updates of the minimum valid
 timestamp could lower it

---
 src/mvcc/ts_provider.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 45a3b56..835ca26 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -109,8 +109,10 @@ class BatchTsList {
   void Flush();
 
   void SetMinValidTs(int64_t min_valid_ts) {
-    if (min_valid_ts > min_valid_ts_.load(std::memory_order_acquire)) {
-      min_valid_ts_.store(min_valid_ts, std::memory_order_release);
+    int64_t old_min_valid_ts = min_valid_ts_.load(std::memory_order_acquire);
+    while (min_valid_ts > old_min_valid_ts &&
+           !min_valid_ts_.compare_exchange_weak(old_min_valid_ts, min_valid_ts, std::memory_order_acq_rel,
+                                                std::memory_order_acquire)) {
     }
   }
 
-- 
2.43.0


From 7166a2de220ed1875fda3caa909fa86e998cf5e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:13 +0000
Subject: [PATCH 45/45] fix: a batch of timestamps could be released while
 another thread appended to it

---
 src/mvcc/ts_provider.cc | 10 ++++++++++
 src/mvcc/ts_provider.h  |  3 +++
 2 files changed, 13 insertions(+)

diff --git a/src/mvcc/ts_provider.cc b/src/mvcc/ts_provider.cc
index a3db596..01f7f01 100644
--- a/src/mvcc/ts_provider.cc
+++ b/src/mvcc/ts_provider.cc
@@ -18,6 +18,7 @@
 #include <cstdint>
 #include <memory>
 
+#include "bthread/mutex.h"
 #include "common/helper.h"
 #include "common/logging.h"
 #include "coordinator/coordinator_interaction.h"
@@ -48,6 +49,7 @@ BatchTsList::BatchTsList() {
   head_.store(BatchTs::New());
   tail_.store(head_.load());
 
+  bthread_mutex_init(&dead_mutex_, nullptr);
   dead_head_.store(BatchTs::New());
   dead_tail_.store(dead_head_.load());
 }
@@ -76,6 +78,8 @@ BatchTsList::~BatchTsList() {
     dead_head_.store(nullptr);
     dead_tail_.store(nullptr);
   }
+
+  bthread_mutex_destroy(&dead_mutex_);
 }
 
 void BatchTsList::Push(BatchTs* batch_ts) {
@@ -159,6 +163,8 @@ void BatchTsList::PushDead(BatchTs* batch_ts) {
   batch_ts->next.store(nullptr);
   batch_ts->SetDeadTime(Helper::TimestampMs());
 
+  BAIDU_SCOPED_LOCK(dead_mutex_);
+
   BatchTs* tail = nullptr;
   BatchTs* tail_next = nullptr;
 
@@ -185,6 +191,8 @@ void BatchTsList::PushDead(BatchTs* batch_ts) {
 }
 
 void BatchTsList::CleanDead() {
+  BAIDU_SCOPED_LOCK(dead_mutex_);
+
   BatchTs* head = nullptr;
   BatchTs* tail = nullptr;
   BatchTs* head_next = nullptr;
@@ -259,6 +267,8 @@ uint32_t BatchTsList::ActualCount() {
 }
 
 uint32_t BatchTsList::ActualDeadCount() {
+  BAIDU_SCOPED_LOCK(dead_mutex_);
+
   uint32_t count = 0;
   BatchTs* node = dead_head_.load();
   while (node) {
diff --git a/src/mvcc/ts_provider.h b/src/mvcc/ts_provider.h
index 835ca26..ec05fa2 100644
--- a/src/mvcc/ts_provider.h
+++ b/src/mvcc/ts_provider.h
@@ -21,6 +21,7 @@
 #include <string>
 #include <vector>
 
+#include "bthread/types.h"
 #include "common/runnable.h"
 #include "common/synchronization.h"
 
@@ -139,6 +140,8 @@ class BatchTsList {
   std::atomic<BatchTs*> tail_{nullptr};
 
   // temporary save dead BatchTs, for delay delete.
+  // the mutex keeps CleanDead from deleting the node another thread is appending to.
+  bthread_mutex_t dead_mutex_;
   std::atomic<BatchTs*> dead_head_{nullptr};
   std::atomic<BatchTs*> dead_tail_{nullptr};
 
-- 
2.43.0

