NODE = ['server/store_service.cc', 'server/service_helper.cc', 'engine/storage.cc', 'engine/mono_store_engine.cc', 'engine/txn_engine_helper.cc', 'engine/concurrency_manager.cc', 'handler/raft_apply_handler.cc', 'handler/raft_apply_handler_txn.cc', 'event/store_state_machine_event.cc', 'event/event.cc', 'handler/handler.cc', 'meta/store_meta_manager.cc', 'metrics/store_metrics_manager.cc', 'common/latch.cc', 'common/helper.cc', 'common/stream.cc', 'common/runnable.cc', 'common/tracker.cc', 'common/serial_helper.cc', 'mvcc/codec.cc', 'engine/gc_safe_point.cc', 'common/synchronization.cc', 'meta/meta_writer.cc', 'meta/meta_reader.cc', 'engine/raft_store_engine.cc']
OPS = {'prewrite': 0, 'commit': 1, 'rollback': 2, 'status': 3, 'resolve_commit': 4, 'resolve_rollback': 5, 'secondary': 6, 'heartbeat': 7, 'plock': 8, 'prollback': 9}
COV = {'commit': ['lock committed', 'commit refused'], 'rollback': ['rollback accepted'], 'status': ['committed', 'rolled back', 'pushed'], 'resolve_commit': ['lock committed'], 'resolve_rollback': ['rollback accepted'], 'secondary': ['committed', 'locked', 'missing'], 'heartbeat': ['beat'], 'plock': ['lock granted', 'lock refused'], 'prollback': ['released']}
def step(name, **kw):
    return dict(name=name, what='%s request against any protocol state of a key' % name, params=dict(op=OPS[name]), quick=dict(recs=1, locks=6, big=0), thorough=dict(recs=2, locks=6, big=1), covers=COV[name], **kw)
def prewrite(name, mode, pess, covers, recs=1):
    return dict(name=name, what='prewrite request (%s) against any protocol state of a key' % name, params=dict(op=0, mode=mode, pess=pess), quick=dict(recs=recs, locks=6, big=0), thorough=dict(recs=2 if mode == 0 else 1, locks=6, big=1), covers=covers + ['prewrite accepted', 'prewrite refused'])
def register(check):
    check('C05', harness='txn_step.cc', src=NODE, parts=[prewrite('prewrite', 0, 0, []), prewrite('prewrite_1pc', 1, 2, ['one phase commit']), prewrite('prewrite_async', 2, 2, ['async lock']), prewrite('prewrite_1pc_pess', 1, 1, ['one phase commit'], 0), prewrite('prewrite_async_pess', 2, 1, ['async lock'], 0)] + [step(n) for n in OPS if n != 'prewrite'],
          assumes=['a commit timestamp belongs to one transaction and is allocated after the requests it depends on (timestamp oracle, C03)', 'one key, one region; the raft log applies a write as soon as it is proposed (single node)'],
          outside='requests over several keys (C07), more records than the bound, the pessimistic-lock-wakeup and leader-change loss of the maximum read timestamp')
