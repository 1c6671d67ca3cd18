def register(check):
    check('C03', harness='tso.cc', src=['coordinator/tso_control.cc', 'common/synchronization.cc', 'common/helper.cc'], tsan=True,
          parts=[dict(name='history', what='any history of requests, timer ticks, elections, delayed leader-start work, step-downs and restarts over two replicas', params={'part': 0}, quick={'steps': 3}, thorough={'steps': 4, 'lostack': 1}, covers=['issued', 'ordered pair', 'restart']),
                 dict(name='adjust', what='unforced clock adjustments never take back a granted timestamp', params={'part': 1}, covers=['accepted', 'rejected']),
                 dict(name='concurrent', what='concurrent requests and a timer tick, all interleavings within the preemption bound', params={'part': 2}, quick={'threads': 2, 'preempt': 2}, thorough={'threads': 3, 'preempt': 3}, covers=['done'])],
          outside='more than two replicas; histories longer than the step bound; forced resets by an administrator; raft itself (a committed log is assumed)')
