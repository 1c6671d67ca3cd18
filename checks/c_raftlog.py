RL = ['log/rocks_log_storage.cc', 'log/index_term_map.cc', 'common/synchronization.cc', 'common/helper.cc']
def register(check):
    parts = [dict(name='store', what='histories of a store region log (raft only)', params=dict(index=0), quick=dict(steps=2, bases=1), thorough=dict(steps=4, bases=1), covers=['append', 'prefix truncated', 'suffix truncated', 'reset', 'restart']),
             dict(name='index', what='histories of an index region log (raft and vector index)', params=dict(index=1), quick=dict(steps=3, bases=1), thorough=dict(steps=4, bases=1), covers=['append', 'prefix truncated', 'suffix truncated', 'reset', 'restart', 'vector index truncates'])]
    parts += [dict(name='regions', what='two regions share the storage; all base indexes', params=dict(index=0, regions=2, bases=6), quick=dict(steps=1), thorough=dict(steps=2), covers=['append', 'prefix truncated', 'suffix truncated', 'reset', 'restart']),
              dict(name='crash', what='the store dies at any disk operation of the last step', params=dict(index=1, crash=1, bases=1), quick=dict(steps=2), thorough=dict(steps=3), covers=['append', 'crash', 'prefix truncated', 'suffix truncated', 'reset']),
              dict(name='race', what='two regions and the vector index use the storage at the same time; crash at any disk operation', params=dict(index=1, regions=2, conc=1, bases=1), quick=dict(preempt=0), thorough=dict(preempt=0, vec=1), covers=['crash', 'no crash', 'append'])]
    check('C11', units=[dict(harness='raft_log.cc', parts=parts, src=RL, extra=['ovr_time.cc'])], outside='rocksdb itself')
