def register(check):
    check('C14', harness='ts_provider.cc', src=['mvcc/ts_provider.cc', 'common/synchronization.cc', 'common/helper.cc'], tsan='all',
          parts=[dict(name='history', what='any history of requests, smallest valid timestamps, passing time, renewals, refused, lost and redirected calls', params={'part': 0}, quick={'steps': 3}, thorough={'steps': 5, 'faults': 2}, covers=['got', 'refused', 'redirected', 'done']),
                 dict(name='concurrent', what='two concurrent requests over every recent past, all interleavings with the worker within the preemption bound', params={'part': 1}, quick={'preempt': 1}, thorough={'preempt': 2}, covers=['got', 'done']),
                 dict(name='concurrent_renew', what='two concurrent requests and a renewal asked for by a third', params={'part': 1, 'third': 1}, quick={'preempt': 1}, thorough={'preempt': 2}, covers=['got', 'done']),
                 dict(name='concurrent_min', what='two concurrent requests and a new smallest valid timestamp', params={'part': 1, 'third': 2}, quick={'preempt': 1}, thorough={'preempt': 2, 'twice': 1}, covers=['got', 'done']),
                 dict(name='minvalid', what='two new smallest valid timestamps at the same time', params={'part': 2}, quick={'preempt': 2}, thorough={'preempt': 3}, covers=['got', 'done'])],
          outside='a request that runs for three seconds or longer (the delay after which batches are released); the test-only Flush; more than one worker')
