from c_txn import NODE
PAIRS = ['two writers', 'async commit and reader', 'one-phase commit and reader', 'commit and rollback', 'region rollback-resolve, another resolver and a new writer', 'commit and expiry check', 'writer and pessimistic lock', 'heartbeat and commit', 'secondary check and late prewrite', 'pessimistic rollback and expiry check', 'one-phase commit and scan', 'region commit-resolve, commit and a new writer', 'two one-phase commits', 'two pessimistic locks', 'expiry check and heartbeat']
def register(check):
    check('C10', harness='txn_conc.cc', src=NODE, parts=[dict(name='pair%d' % i, what=w + ' at the same time', params=dict(pair=i), quick=dict(preempt=2), thorough=dict(preempt=3), covers=['ran']) for i, w in enumerate(PAIRS)],
          outside='more than two concurrent clients, more preemptions than the bound, weak-memory effects')
