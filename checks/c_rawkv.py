from c_txn import NODE
OPS = {'get': 0, 'batch_get': 1, 'put': 2, 'batch_put': 3, 'put_if_absent': 4, 'batch_put_if_absent': 5, 'delete_range': 6, 'compare_and_set': 7, 'batch_compare_and_set': 8, 'batch_delete': 10}
RAW = NODE + ['mvcc/reader.cc', 'mvcc/iterator.cc', 'scan/scan.cc', 'scan/scan_manager.cc', 'scan/scan_filter.cc']
def register(check):
    parts = []
    for e, en in ((0, 'mono'), (1, 'raft')):
        for n, op in OPS.items():
            parts.append(dict(name='%s_%s' % (n, en), what='%s request against any version history (%s engine)' % (n, en), params=dict(op=op, engine=e), quick=dict(ver=1), thorough=dict(ver=2), covers=['refused'] + (['accepted'] if op else ['found', 'absent'])))
    step = dict(harness='raw_kv.cc', src=list(dict.fromkeys(RAW)), parts=parts, extra=['ovr_hex.cc']); parts = []
    pairs = ['two compare-and-sets', 'single and batch put-if-absent', 'two atomic put-if-absents', 'two atomic compare-and-sets', 'compare-and-set, delete and re-creation', 'batch put and scan', 'two batch puts', 'delete and compare-and-set', 'put and put-if-absent', 'delete and atomic put-if-absent', 'range delete and compare-and-set', 'range delete and batch put', 'put and compare-and-set', 'put, read and delete']
    for i, p in enumerate(pairs):
        parts.append(dict(name='pair%d' % i, what=p + ' at the same time', params=dict(pair=i, engine=i % 2), quick=dict(preempt=2), thorough=dict(preempt=3), covers=['ran']))
    conc = dict(harness='raw_conc.cc', src=list(dict.fromkeys(RAW)), parts=parts, extra=['ovr_hex.cc', 'ovr_time.cc'])
    check('C13', units=[step, conc],
          outside='more than two keys in a request, repeated keys in one request, more versions than the bound, values longer than one byte; range deletes beyond the region boundary')
    sp = []
    for v2 in (0, 1):
        sp.append(dict(name='scan_v%d' % (v2 + 1), what='raw scan session, protocol version %d, with a write between the pages' % (v2 + 1), params=dict(v2=v2, engine=v2), quick=dict(ver=1, ranges=10), thorough=dict(ver=2, ranges=10), covers=['scanned', 'several pages', 'write between pages', 'refused']))
    check('C23', harness='raw_scan.cc', src=list(dict.fromkeys(RAW)), parts=sp, extra=['ovr_hex.cc', 'ovr_time.cc'], outside='coprocessor push-down (its library is not in the repository), the byte limit of a page, the session timeout')
