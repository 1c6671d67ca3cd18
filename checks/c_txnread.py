from c_txn import NODE
def register(check):
    def part(name, op, what, q, t, covers, **p): return dict(name=name, what=what, params=dict(op=op, **p), quick=q, thorough=t, covers=covers)
    check('C06', harness='txn_read.cc', src=NODE, parts=[
        part('get_versions', 0, 'point read against any history of the key', dict(recs=2, locks=1, big=1), dict(recs=3, locks=2, big=1), ['value', 'absent']),
        part('get_locks', 0, 'point read against any lock and history', dict(recs=1, locks=6), dict(recs=2, locks=6, big=1), ['blocked', 'value', 'absent'], resolved=1),
        part('get_rc', 0, 'read-committed point read', dict(recs=1, locks=6), dict(recs=2, locks=6, big=1), ['value'], rc=1),
        part('batch', 1, 'batch read of two keys', dict(recs=1, locks=2, locks2=1), dict(recs=1, locks=4, resolved=1), ['blocked', 'values']),
        part('scan', 2, 'scan over several calls', dict(recs=1, locks=2, ranges=1), dict(recs=1, locks=4, ranges=4, big=1), ['blocked', 'scanned', 'several calls']),
        part('scan_write', 2, 'scan over several calls with a commit between two calls', dict(recs=1, locks=1, ranges=1), dict(recs=2, locks=1, ranges=1), ['write between calls'], write=1)],
        assumes=['lock and version timestamps come from one timestamp oracle'],
        outside='reverse scans and coprocessor pushdown (their library is not in the repository), more than two keys, more versions than the bound')
