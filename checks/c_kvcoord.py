KV = ['coordinator/kv_control.cc', 'coordinator/kv_control_kv.cc', 'coordinator/kv_control_fsm.cc', 'coordinator/kv_control_lease.cc', 'coordinator/kv_control_watch.cc', 'server/version_service.cc', 'server/service_helper.cc', 'raft/meta_state_machine.cc', 'meta/meta_reader.cc', 'meta/meta_writer.cc', 'engine/raft_store_engine.cc', 'common/helper.cc', 'common/tracker.cc', 'common/runnable.cc', 'common/synchronization.cc', 'common/serial_helper.cc', 'mvcc/codec.cc']
def register(check):
    parts = [dict(name='history%d' % s, what='any history of requests, restarts and snapshot restores (start state %d)' % s, params=dict(seed=s), quick=dict(steps=2), thorough=dict(steps=3), covers=['refused']) for s in (0, 1, 2)]
    parts += [dict(name='crash%d' % s, what='the process dies inside the apply of a request and replays the log (start state %d)' % s, params=dict(seed=s, crash=6, snap_crash=9), quick=dict(steps=1 if s else 2), thorough=dict(steps=2 if s else 3), covers=['crash inside an apply']) for s in (0, 1, 2)]
    check('C15', harness='kv_coord.cc', src=KV, parts=parts, extra=['ovr_hex.cc', 'ovr_time.cc'], outside='values longer than one byte, keys other than the three of the harness, leases that expire by themselves (C31), requests running at the same time (C30 and C31), sort orders and revision filters of a range request (refused by the service)')
    wp = [dict(name='history%d' % s, what='watches, writes, cancels and leader changes in any order (start state %d)' % s, params=dict(seed=s), quick=dict(steps=3), thorough=dict(steps=4), covers=['woken', 'absent', 'cancelled']) for s in (0, 1, 2)]
    wp += [dict(name='race_' + n, what='a watch is registered while ' + w, params=dict(race=1, kind=i), quick=dict(preempt=3), thorough=dict(preempt=5)) for i, (n, w) in enumerate([('put', 'its key is written'), ('delete', 'its key is deleted'), ('stop', 'the leader steps down'), ('change', 'the leader steps down and is elected again'), ('cancel', 'another watch is cancelled'), ('put_delete', 'its key is written and deleted'), ('start', 'the leader starts')])]
    check('C30', harness='kv_watch.cc', src=KV, parts=wp, extra=['ovr_hex.cc', 'ovr_time.cc'], outside='watches of key ranges (not supported by the service), more than one watch registered at the same instant, the cancel notification of the RPC library (its callback is called by the harness)')
    lp = [dict(name='history%d' % s, what='leases, writes, time, leader changes and refused writes in any order (start state %d)' % s, params=dict(seed=s), quick=dict(steps=3), thorough=dict(steps=4), covers=['expired', 'leader change', 'refused write']) for s in (0, 1, 2)]
    lp += [dict(name='leaders%d' % s, what='two nodes which take over from each other, with one request in between (start state %d)' % s, params=dict(seed=s, follower=1, swap=1), quick=dict(steps=3), thorough=dict(steps=4), covers=['another leader']) for s in (1, 2)]
    lp += [dict(name='race_' + n, what=w, params=dict(race=1, kind=i), quick=dict(preempt=2), thorough=dict(preempt=4), covers=['both']) for i, (n, w) in enumerate([('put_revoke', 'a put under a lease while it is revoked'), ('put_expire', 'a put under a lease while it expires'), ('renew_revoke', 'a renewal while the lease is revoked'), ('renew_expire', 'a renewal while the lease expires'), ('put_delete', 'a put under a lease and a delete of its key'), ('grant_grant', 'two grants'), ('grant_same', 'two grants of the same id'), ('revoke_revoke', 'two revocations'), ('revoke_delete', 'a revocation and a delete of a key of the lease')])]
    check('C31', harness='kv_lease.cc', src=KV, parts=lp, extra=['ovr_hex.cc', 'ovr_time.cc'], outside='more than two keys, clock jumps backwards, three or more requests at the same time, the count limit')
