from c_txn import NODE
def register(check):
    check('C09', harness='lock_scan.cc', src=NODE, parts=[
        dict(name='scan', what='paged lock scan through a stream', params=dict(part=0), quick=dict(keys=3), thorough=dict(keys=4), covers=['second page', 'reported']),
        dict(name='scan_limit', what='paged lock scan with the limit of the request itself', params=dict(part=0, meta=0), quick=dict(keys=2), thorough=dict(keys=3), covers=['second page', 'reported']),
        dict(name='resolve', what='resolve of a region in pages of one or two locks', params=dict(part=1), quick=dict(keys=2), thorough=dict(keys=3), covers=['committed', 'rolled back', 'stopped at a pessimistic lock'])],
        outside='more keys than the bound, expiry of idle streams')
