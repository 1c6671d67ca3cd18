from c_txn import NODE
def register(check):
    C = ['collected', 'visible value', 'older version below a newer one']
    check('C08', harness='gc.cc', src=NODE, parts=[
        dict(name='txn', what='transactional versions of one key', params=dict(part=0), quick=dict(nrec=3, locks=1, big=0), thorough=dict(nrec=3, locks=3), covers=C),
        dict(name='txnlock', what='transactional versions of one key with a lock and long values', params=dict(part=0), quick=dict(nrec=2, locks=3, batches=2), thorough_only=False, thorough=dict(nrec=2, locks=3), covers=C),
        dict(name='txn2', what='transactional versions of two keys', params=dict(part=0, keys=2), quick=dict(nrec=2, locks=1, batches=2, big=0, nrec2=1), thorough=dict(nrec=2, locks=1), covers=C),
        dict(name='raw', what='raw versions with deletes and expiry, one key', params=dict(part=1), quick=dict(nrec=3), thorough=dict(nrec=4), covers=C),
        dict(name='raw2', what='raw versions of two keys', params=dict(part=1, keys=2), quick=dict(nrec=2, nrec2=1, batches=2), thorough=dict(nrec=2, batches=2), covers=C),
        dict(name='unknown', what='a tenant the store does not know', params=dict(part=2), covers=['answered'])],
        extra=['ovr_hex.cc'], outside='vector and document regions, more versions than the bound')
