from c_region import RC
VI = list(dict.fromkeys(RC + ['vector/vector_index_manager.cc', 'vector/vector_index.cc', 'vector/vector_index_snapshot.cc', 'vector/codec.cc', 'mvcc/reader.cc', 'mvcc/iterator.cc']))
def register(check):
    cv = ['add', 'delete', 'restored', 'in', 'out']
    P = lambda name, what, covers, q, t, **p: dict(name=name, what=what, covers=covers, params=p, quick=q, thorough=t)
    parts = [P('rebuild', 'an index is built or built again while entries are applied, in any interleaving', cv + ['rebuild'], dict(entries=2, preempt=1), dict(entries=3, preempt=1), way=0),
             P('replay', 'an index is built again after any entries', cv + ['rebuild', 'refused'], dict(entries=3), dict(entries=4), way=0, stale=1),
             P('load', 'an index is loaded from a snapshot of any earlier moment while entries are applied', cv + ['snapshot'], dict(entries=2, preempt=1), dict(entries=3, preempt=1), way=1),
             P('restart', 'a store starts again and loads the index while it applies the log again', cv + ['snapshot', 'restart', 'rebuild'], dict(entries=2, preempt=0), dict(entries=3, preempt=0), way=1, restart=1),
             P('txn', 'transactions commit vectors', ['committed', 'commit of a delete', 'in', 'out', 'rebuild'], dict(entries=3), dict(entries=3, preempt=1), way=0, txn=1)]
    check('C16', units=[dict(harness='vector_index.cc', src=VI, extra=['ovr_hex.cc', 'ovr_time.cc', 'ovr_rand.cc'], defs=['SHIM_FMT_REAL'], parts=parts)], outside='the index libraries themselves (hnswlib, faiss and diskann, external code), the files of a snapshot, and splits and merges while an index is built')
