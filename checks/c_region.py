from c_txn import NODE
RC = list(dict.fromkeys(NODE + ['raft/store_state_machine.cc', 'handler/raft_vote_handler.cc', 'handler/raft_snapshot_handler.cc', 'metrics/store_bvar_metrics.cc', 'common/role.cc', 'mvcc/ts_provider.cc']))
def register(check):
    parts = []
    for post in (0, 1):
        n = 'post' if post else 'pre'
        parts.append(dict(name='split_%s_crash' % n, what='the store dies at any write while it applies a split (%s-created region) and replays' % n, params=dict(post=post, crash=1, points=40), quick=dict(entries=2), thorough=dict(entries=3), covers=['crash', 'split', 'written', 'write refused']))
        parts.append(dict(name='split_%s_race' % n, what='the logs of the two regions are applied in any interleaving (%s-created region)' % n, params=dict(post=post), quick=dict(entries=2, preempt=1), thorough=dict(entries=3, preempt=2), covers=['split', 'written', 'write refused']))
        parts.append(dict(name='split_%s_requests' % n, what='also split requests that are validated under another epoch (%s-created region)' % n, params=dict(post=post, bad=1), quick=dict(entries=2, preempt=0), thorough=dict(entries=3, preempt=1), covers=['split', 'split refused']))
    mp = [dict(name='merge_crash', what='a follower dies at any write while it applies a merge and replays both logs', params=dict(crash=1, points=60), quick=dict(preempt=0), thorough=dict(preempt=0, points=120), covers=['crash', 'written', 'write refused']),
          dict(name='merge_race', what='a follower applies the logs of both regions of a merge in any interleaving', params=dict(), quick=dict(preempt=1), thorough=dict(preempt=2), covers=['written', 'write refused'])]
    ex = ['ovr_hex.cc', 'ovr_time.cc', 'ovr_rand.cc']; one = dict(src=RC, defs=['SHIM_FMT_REAL'], extra=ex)
    check('C12', units=[dict(harness='region_split.cc', parts=parts, **one), dict(harness='region_merge.cc', parts=mp, **one)], outside='index and document regions, snapshot installation')
