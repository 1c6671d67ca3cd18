PROPS = []; NOT_APPLICABLE = {}
def P(id, title, statement, over, qtext, why, files, mech):
    PROPS.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
                  'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})
NOTEST = 'The existing tests do not reach this code (only eleven helper sources are built); '
P('C01', 'Versioned key encoding preserves identity and order', 'Encoding a user key with a timestamp and decoding it gives the same key and timestamp, encoded keys sort by user key ascending and then newest timestamp first, and an encoded range contains exactly the versions of the keys of the plain range. A packaged value gives back the value, its kind and its time-to-live.',
  ['inputs'], 'all keys up to the length bound, all timestamps, all values and ttl', NOTEST + 'samples cannot cover every pair of keys and timestamps.', ['src/mvcc/codec.cc', 'src/common/serial_helper.cc'], [('memory-comparable group encoding', 'mvcc::Codec::EncodeBytes'), ('value packaging', 'mvcc::Codec::PackageValue')])
P('C02', 'Reads at a timestamp see the newest live version at or before it', 'A multi-version read of a key, a range, a count, or the smallest/largest key at a timestamp returns exactly the newest version not newer than that timestamp of each key, unless that version is a delete or has expired; a non-positive timestamp reads the latest state. Forward and reverse iteration agree.',
  ['inputs', 'histories'], 'all version histories within the bound, all read timestamps, all ranges', NOTEST + 'the interplay of versions, deletes, ttl and direction needs every history.', ['src/mvcc/reader.cc', 'src/mvcc/iterator.cc'], [('visibility filter', 'mvcc::Iterator::NextVisibleKey / PrevVisibleKey'), ('readers', 'mvcc::KvReader, VectorReader, DocumentReader')])
P('C03', 'The timestamp oracle never grants a timestamp twice', 'No two successful timestamp requests are ever granted overlapping timestamps, and the timestamps granted by the current leader increase over time, across clock updates, backward clock jumps, leader changes, restarts from snapshots and unforced adjustments.',
  ['histories', 'schedules', 'inputs'], 'all event histories within the step bound with arbitrary clocks and request counts; all interleavings of concurrent requests and a timer tick within the preemption bound', NOTEST + 'needs leader changes, restarts and clock anomalies in every order.', ['src/coordinator/tso_control.cc'], [('saved upper bound', 'TsoControl::UpdateTimestamp / OnLeaderStart'), ('fallback rejection', 'TsoControl::UpdateTso / ResetTso'), ('logical counter', 'TsoControl::GenTso')])
P('C04', 'Auto-increment ids are never granted twice', 'Each auto-increment grant covers as many ids of the requested increment and offset as were asked for, and no two grants of a table overlap, however requests, creations and unforced updates are ordered between validation and apply. All replicas hold the same counter and a snapshot restores it. Invalid requests are rejected and change nothing.',
  ['histories', 'inputs'], 'all interleavings of validate and apply of generate/create/update requests within the step bound, all counts, offsets and start ids', NOTEST + 'needs requests validated against a state that other requests change before they are applied.', ['src/coordinator/auto_increment_control.cc'], [('counter advance', 'AutoIncrementControl::ApplyMetaIncrement'), ('end id computation', 'AutoIncrementControl::GetRealCountOfGenerateAutoIncrement'), ('snapshot', 'AutoIncrementControl::LoadMetaFromSnapshotFile')])
P('C05', 'A transaction has one final outcome per key and every request answers truthfully', 'In the store, a transaction ends on a key in at most one way: it is committed once at one timestamp with the value it prewrote, or rolled back, and this never changes afterwards. No request removes or alters another transaction\'s lock, committed version or outcome. Prewrite, commit, rollback, status check, secondary check, resolve, heartbeat and pessimistic lock requests that are acknowledged have the effect they report, and refused ones change nothing: a prewrite or lock is refused on conflict, an acknowledged rollback can never be committed, a status answer is final, locks are exclusive and only expired ones are rolled back, and a one-phase or async commit is ordered after every read already served. Repeated and delayed requests are harmless.',
  ['inputs', 'histories'], 'one request of every kind, with all its parameters symbolic, against every state of a key the protocol can produce (versions, rollback records and every lock kind, all timestamps symbolic), which covers every history by induction within the record bound', NOTEST + 'duplicated, delayed and reordered requests meet the key in every state.', ['src/engine/txn_engine_helper.cc', 'src/engine/storage.cc', 'src/handler/raft_apply_handler_txn.cc', 'src/server/store_service.cc'], [('percolator requests', 'TxnEngineHelper::Prewrite / DoTxnCommit / BatchRollback / CheckTxnStatus / ResolveLock / CheckTxnSecondaryLocks / HeartBeat / PessimisticLock / PessimisticRollback'), ('apply', 'TxnHandler::HandleMultiCfPutAndDeleteRequest')])
P('C06', 'A transactional read returns exactly its snapshot', 'A get, batch get or scan at a timestamp returns, for every requested key, the newest version committed at or before that timestamp, and nothing newer, whatever versions, rollback records, deletes and locks the keys carry. It reports a conflict instead of data exactly when a prewritten lock could still commit inside the snapshot, and never passes such a lock. A scan delivered over several calls returns every live key of the range once and in order from one snapshot even when writes commit between the calls. A timestamp that was read at is remembered, so that later one-phase and async commits are ordered after it.',
  ['inputs', 'histories'], 'all protocol states of up to two keys within the record bound, all read timestamps, ranges, limits and resolved-lock sets', NOTEST + 'the answer depends on every combination of versions and locks around the read timestamp.', ['src/engine/txn_engine_helper.cc', 'src/server/store_service.cc', 'src/engine/storage.cc', 'src/common/stream.cc'], [('lock conflict rule', 'TxnEngineHelper::CheckLockConflict'), ('snapshot iterator', 'TxnIterator'), ('point reads', 'TxnEngineHelper::BatchGet'), ('scan sessions', 'StreamManager, TxnEngineHelper::Scan')])
P('C07', 'A request over several keys is atomic and its promises cover every key', 'A prewrite, one-phase commit, commit, rollback, resolve or secondary check that addresses several keys takes effect on all of them or on none. A transaction never commits on one key and rolls back on another and commits at one timestamp everywhere. An async-commit prewrite promises a minimum commit timestamp that covers every key, also when the request is repeated, and a one-phase commit stores every key at the acknowledged timestamp, after every read served before and below its upper bound, or falls back to locks on every key.',
  ['inputs', 'histories'], 'one request over two keys with symbolic parameters against all joint protocol states of the two keys within the record bound', NOTEST + 'partial effects show only when the keys are in different states.', ['src/engine/txn_engine_helper.cc', 'src/server/store_service.cc', 'src/handler/raft_apply_handler_txn.cc'], [('one write per request', 'TxnEngineHelper::DoPreWrite / OnePCommit / DoTxnCommit / DoRollback'), ('minimum commit timestamp', 'TxnEngineHelper::GenFinalMinCommitTs / Prewrite'), ('range resolve', 'TxnEngineHelper::BatchResolveLock')])
P('C10', 'Requests running at the same time behave as if run one at a time', 'Requests that run at the same time on one store region, including a client retry or a second resolver, leave the state and give the answers of some order in which they run one after another. A read is never missed by a concurrent async commit or one-phase commit: either the read is turned away or the commit timestamp is after it. No latch or in-memory lock outlives its request and no request waits forever.',
  ['schedules', 'inputs'], 'every interleaving, within the preemption bound, of the storage accesses and lock operations of fifteen pairs of request sequences, with symbolic timestamps', NOTEST + 'a wrong interleaving needs a preemption at one particular storage access.', ['src/server/store_service.cc', 'src/engine/txn_engine_helper.cc', 'src/common/latch.cc', 'src/engine/concurrency_manager.cc'], [('key latches', 'Latches::Acquire / Release, LatchContext'), ('in-memory lock table against readers', 'ConcurrencyManager / Region::CheckKeys'), ('reads update the newest read timestamp', 'Region::SetTxnAccessMaxTs')])
P('C08', 'Garbage collection keeps everything a current reader can see', 'Garbage collection at a safe point never changes what a read at or after the safe point returns: it keeps every version newer than the safe point, the newest version at or before it, and all locks and their values, and a deleted or expired key never reappears, also when the run is stopped, cut off by a crash or one of its batches is refused. A finished run leaves at most one older version per key, a stopped one removes nothing, and a request for an unknown tenant is refused.',
  ['inputs', 'histories', 'crash_points', 'fault_sequences'], 'all version histories of one or two keys within the record bound, transactional and raw with expiry, all safe points and read times, batch sizes, and every batch at which the run is cut or refused', NOTEST + 'losing a version needs a particular history around the safe point, and a reappearing one a batch boundary at the right record.', ['src/engine/txn_engine_helper.cc', 'src/engine/gc_safe_point.cc'], [('transactional collection', 'TxnEngineHelper::DoGcCoreTxn'), ('raw collection', 'TxnEngineHelper::DoGcCoreNonTxn'), ('stop flag and safe point', 'GCSafePointManager')])
P('C09', 'Every old lock of a region can be found and resolved', 'Scanning the locks of a range older than a timestamp, page by page, reports every such lock exactly once with its true contents, in key order and within the page limit, and ends, also while other locks come and go between pages. An unknown or finished stream is refused. Resolving a transaction over a region settles every lock of that transaction at the requested outcome, whatever the internal page size, leaves all other locks alone, and says so when it leaves one behind.',
  ['inputs', 'histories'], 'all lock states of the keys within the bound, all ranges, limits and timestamps, changes between pages', NOTEST + 'page boundaries, limits and lock mixes have to be combined.', ['src/engine/txn_engine_helper.cc', 'src/common/stream.cc', 'src/engine/storage.cc'], [('lock scan', 'TxnEngineHelper::ScanLockInfo'), ('streams', 'StreamManager::GetOrNew'), ('region resolve', 'TxnEngineHelper::BatchResolveLock')])

P('C11', 'The raft log returns every appended entry unchanged until it is given up', 'Entries appended to the log of a region are returned with their index, term, type and data, in order and without others, by every way of reading the log, until they are truncated: from the tail when raft drops them, from the head only when both raft and a vector index have given them up, or all by a reset. First and last index and the terms of entries agree with them. Regions do not disturb one another. What was acknowledged survives a crash or restart, what was running happened entirely or not at all, and a read leaves nothing pinned in the storage.',
  ['histories', 'schedules', 'crash-points', 'inputs'], 'all histories of appends, truncations, resets and restarts within the step bound on logs of up to seven entries with any data; all interleavings of two regions and the writer; a crash at every disk operation with or without the unsynced data', NOTEST + 'needs every order of truncations by two clients, crashes and restarts.', ['src/log/rocks_log_storage.cc', 'src/log/index_term_map.cc'], [('mutation queue', 'RocksLogStorage::CommitMutation / ExecuteRoutine'), ('index bookkeeping', 'RocksLogStorage::AdjustIndexMeta / InitIndexMeta'), ('truncation by several clients', 'RocksLogStorage::TruncatePrefix / TruncateSuffix'), ('term cache', 'IndexTermMap')])
P('C12', 'A split or merge changes every replica of the regions the same way, whatever the timing', 'Applying a split gives the two regions exactly the two halves of the old range, with the same new epochs on every store, and applying a merge gives the target both ranges and one new epoch and retires the source. A write is applied on every store exactly when it was proposed under the epoch the region had at that place of its log, so no write is lost, doubled or applied on one replica only. This holds however the logs of the two regions are interleaved and when the store dies at any write and replays: afterwards the regions are normal and can be split or merged again, and the store starts.',
  ['inputs', 'schedules', 'crash-points'], 'all epochs, sides, split keys and stale or fresh writes of the bounded logs; all interleavings of the two appliers within the preemption bound; a crash at every write', NOTEST + 'needs every interleaving of two region logs and every crash point.', ['src/handler/raft_apply_handler.cc', 'src/raft/store_state_machine.cc', 'src/meta/store_meta_manager.cc', 'src/engine/raft_store_engine.cc'], [('split apply', 'HandlePreCreateRegionSplit / HandlePostCreateRegionSplit'), ('merge apply', 'PrepareMergeHandler / CommitMergeHandler, StoreStateMachine::CatchUpApplyLog'), ('epoch filter', 'StoreStateMachine::on_apply'), ('unfinished snapshot', 'RaftStoreEngine::Recover')])
P('C13', 'Raw key-value requests do exactly what they answer, atomically', 'An accepted put, put-if-absent, compare-and-set, delete or range delete, single or batch, changes exactly the keys it names, stores exactly the given value and expiry at the returned timestamp, and keeps older versions. Put-if-absent writes only absent keys, compare-and-set only keys with the expected value, atomic batches write every key or none, and the reported key states say what was done. Gets return the newest live value. A request that is invalid, out of range, stale, refused by the replicated log, without a timestamp, or a put in a read-only cluster, is refused and changes nothing. Requests that run at the same time behave as if run one at a time. All of this on both store engines.',
  ['inputs', 'histories', 'schedules'], 'one request of every kind with symbolic values, ttl and refusal reason, on both engines, against every version history of two keys within the bound; every interleaving within the preemption bound of fourteen pairs of request sequences', NOTEST + 'expiry, deletes and concurrent read-modify-writes combine in ways samples miss.', ['src/server/store_service.cc', 'src/engine/raft_store_engine.cc', 'src/engine/mono_store_engine.cc', 'src/handler/raft_apply_handler.cc'], [('conditional writes', 'RaftStoreEngine::Writer::KvPutIfAbsent / KvCompareAndSet and the MonoStoreEngine ones'), ('apply', 'PutHandler, DeleteBatchHandler, DeleteRangeHandler'), ('validation', 'ServiceHelper::ValidateRegion / ValidateRangeInRange')])
P('C23', 'A raw scan session returns one snapshot of its range, page by page', 'A scan session over a range returns every live key of the range once, in key order, with the values of one snapshot at the requested timestamp, whatever the page sizes and whatever is written between the pages, never more than the requested number of keys per page, and ends. Keys outside the region are never returned. Unknown, released or duplicate sessions are refused.',
  ['inputs', 'histories'], 'all version histories of three keys within the bound, ranges with open and closed ends, page sizes, read timestamps and a write, delete or range delete between pages, both protocol versions', NOTEST + 'the result depends on where pages end relative to versions and writes.', ['src/scan/scan.cc', 'src/scan/scan_manager.cc', 'src/scan/scan_filter.cc', 'src/engine/storage.cc'], [('session', 'ScanHandler::ScanBegin / ScanContinue / ScanRelease'), ('sessions table', 'ScanManager, ScanManagerV2'), ('page limit', 'ScanFilter::UptoLimit')])

P('C14', 'The timestamps a store gives to raw writes are fresh and never repeated', 'Every timestamp a store gives to a raw write was granted to that store by the coordinator and is given to one caller only. It is greater than the timestamp the caller asked to exceed, than every smallest valid timestamp set before the call, and than every timestamp given by a call that ended before it began, and it is not taken from a batch older than the staleness limit. This holds however calls, renewals and clean-ups run at the same time. A store whose coordinator can be reached, also after lost, refused and redirected calls, gets a timestamp, and one whose coordinator cannot be reached is told so. No batch is used after it was released.',
  ['schedules', 'histories', 'fault_sequences', 'inputs'], 'all histories of requests, smallest valid timestamps, passing time, renewals and failed calls within the step bound; every interleaving within the preemption bound of two requests, the renewing worker and a third request, renewal or smallest valid timestamp over the recent pasts', NOTEST + 'a repeated timestamp or a released batch needs a preemption between two accesses of the lock-free lists.', ['src/mvcc/ts_provider.cc', 'src/mvcc/ts_provider.h', 'src/coordinator/coordinator_interaction.h'], [('list of batches', 'BatchTsList::GetTs / Push / PushDead / CleanDead'), ('renewal', 'TsProvider::GetTs / LaunchRenewBatchTs / RenewBatchTs / SendTsoRequest, TakeBatchTsTask'), ('smallest valid timestamp', 'BatchTsList::SetMinValidTs / IsValid / IsStale')])
P('C15', "The coordinator's versioned key-value store is a linear history that survives crashes", 'Each accepted put, delete and lease request of the coordinator\'s key-value service takes effect once, at the revision it answers, and revisions only grow. A range request returns exactly the live keys of its range with their value, creation and modification revision, version and lease, within the limit, and its count is right. A put is accepted exactly when its request and its lease are valid, keeps or replaces value and lease as asked, and returns the replaced value; a delete removes and reports exactly the keys of its range; revoking a lease removes exactly its keys; compaction changes no current value. Replicas hold the same state, and a restart, a restored snapshot, or a crash at any write of an apply or a snapshot load followed by the replay of the log changes nothing a client can see.',
  ['inputs', 'histories', 'crash_points'], 'all histories of requests with symbolic values, flags, ranges, leases and compaction revisions within the step bound from three start states, with restarts, snapshots and a crash before every write of an apply and of a snapshot load', NOTEST + 'revision, version and lease bookkeeping has to be right in every order of requests and at every crash point.', ['src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/coordinator/kv_control_lease.cc', 'src/server/version_service.cc', 'src/raft/meta_state_machine.cc'], [('requests', 'KvControl::KvPut / KvRange / KvDeleteRange / KvCompact'), ('apply', 'KvControl::ApplyMetaIncrement, KvPutApply, KvDeleteApply'), ('snapshot', 'KvControl::LoadMetaFromSnapshotFile'), ('replay guard', 'KvControl::GetAppliedTermAndIndex')])
P('C16', 'The vector index of a region holds exactly the vectors the region stores', 'Once the vector index of a region is ready, it holds exactly the vectors of its range which the region stores, each with its newest value, and keeps doing so as log entries are applied. This holds whether the index was built from the stored vectors, built again, or loaded from a snapshot of any earlier moment and brought up to date from the log, whatever is applied while that happens: adds and updates, deletes, batches which name a vector more than once, restored vectors and committed transactions, entries refused for their epoch, and a restart of the store.',
  ['histories', 'schedules', 'crash_points'], 'all histories of log entries of every kind over two vectors in range and one outside it within the step bound, the moment the build, load, snapshot or restart starts, and every interleaving within the preemption bound of the apply of entries with the build, catch-up and switch', NOTEST + 'a vector is lost only when its entry falls between two steps of a build or catch-up.', ['src/vector/vector_index_manager.cc', 'src/vector/vector_index.cc', 'src/handler/raft_apply_handler.cc', 'src/raft/store_state_machine.cc'], [('build', 'VectorIndexManager::BuildVectorIndex / RebuildVectorIndex'), ('catch-up', 'VectorIndexManager::CatchUpLogToVectorIndex / ReplayWalToVectorIndex'), ('apply', 'VectorAddHandler, VectorDeleteHandler, VectorBatchAddHandler, TxnHandler'), ('wrapper', 'VectorIndexWrapper::Add / Delete / UpdateVectorIndex')])
P('C30', 'A watch on a coordinator key never misses its event and is answered exactly once', 'A one-time watch on a key is answered exactly once: at once if the key is absent and it does not wait, or if the key already changed after its start revision; otherwise by the first later put or delete it does not filter out, with the value written and, if asked for, the value before. It is never answered by anything else, never misses an event that happens while it is being registered, and never outlives the leadership of its node. A cancelled watch ends without an event, and a watch that cannot be kept is refused with an error.',
  ['schedules', 'histories', 'inputs'], 'all histories of watches with symbolic start revisions and filters, puts, deletes, lease revocations, cancels and leader changes within the step bound; every interleaving within the preemption bound of a registration with a put, a delete, a cancel or a leader change', NOTEST + 'a lost wakeup needs the write to fall between two steps of the registration.', ['src/coordinator/kv_control_watch.cc', 'src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/server/version_service.cc'], [('registration', 'KvControl::OneTimeWatch / AddOneTimeWatch'), ('events', 'KvControl::TriggerOneWatch'), ('leader change', 'KvControl::OnLeaderStart / OnLeaderStop')])
P('C31', 'Keys of the coordinator live exactly as long as their lease', 'A lease is granted once per id, with a time within the limits, and lives until it is revoked or its time since the last renewal is over: then it and exactly the keys put under it are removed together, and nothing else. It is not removed earlier, a renewed lease keeps its keys, and a revoked or expired one never comes back. A put under a lease is accepted exactly when the lease is live. Queries name the remaining time and the keys of a lease. This holds across leader changes, restarts, refused writes and requests running at the same time.',
  ['schedules', 'histories', 'fault_sequences'], 'all histories of grants, puts, deletes, renewals, revocations, passage of time, leader changes and refused writes within the step bound from three start states; every interleaving within the preemption bound of nine pairs of requests', NOTEST + 'orphaned keys and revived leases need a request to fall between the checks and the apply of another.', ['src/coordinator/kv_control_lease.cc', 'src/coordinator/kv_control_kv.cc', 'src/coordinator/kv_control_fsm.cc', 'src/server/version_service.cc'], [('lease table', 'KvControl::LeaseGrant / LeaseRenew / LeaseRevoke / LeaseQuery'), ('expiry', 'KvControl::LeaseTask'), ('rebuild on a new leader', 'KvControl::BuildLeaseToKeyMap')])
