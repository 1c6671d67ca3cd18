from c_txn import NODE
def register(check):
    def part(name, op, what, covers, q=None, t=None, **p): return dict(name=name, what=what, params=dict(op=op, **p), quick=q or dict(recs=1, recs2=0, lk=5), thorough=t or dict(recs=1, lk=47), covers=covers)
    check('C07', harness='txn_pair.cc', src=NODE, parts=[
        part('prewrite', 0, 'prewrite of two keys in one request', ['accepted', 'refused'], mode=0),
        part('prewrite_pess', 0, 'prewrite of two pessimistically locked keys', ['accepted', 'refused'], dict(recs=1, recs2=0, lk=8), dict(recs=1, lk=25), mode=0),
        part('one_pc', 0, 'one-phase commit of two keys', ['one phase', 'refused'], dict(recs=1, recs2=0, lk=3), None, mode=1),
        part('one_pc_bound', 0, 'one-phase commit of two keys with an upper bound', ['one phase', 'accepted'], dict(recs=0, recs2=0, lk=1), dict(recs=1, lk=3), mode=1, bounded=1),
        part('async', 0, 'async-commit prewrite of two keys, also repeated', ['async', 'refused'], dict(recs=1, recs2=0, lk=33), dict(recs=1, lk=35), mode=2),
        part('async_bound', 0, 'async-commit prewrite of two keys with an upper bound', ['async', 'accepted'], dict(recs=0, recs2=0, lk=1), dict(recs=1, lk=33), mode=2, bounded=1),
        part('commit', 1, 'commit of two keys in one request', ['both committed', 'refused'], dict(recs=1, recs2=0, lk=3)),
        part('resolve_commit', 2, 'resolving a committed transaction over the region', ['both committed'], dict(recs=1, recs2=0, lk=3)),
        part('rollback', 3, 'rollback of two keys in one request', ['rolled back'], dict(recs=1, recs2=0, lk=11)),
        part('resolve_rollback', 4, 'resolving a rolled back transaction over the region', ['rolled back'], dict(recs=1, recs2=0, lk=11)),
        part('secondary', 5, 'status check of two secondaries', ['committed', 'all locked', 'missing'], dict(recs=1, lk=33))])
