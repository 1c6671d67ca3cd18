def register(check):
    check('C04', harness='auto_inc.cc', src=['coordinator/auto_increment_control.cc', 'common/helper.cc'],
          parts=[dict(name='history', what='requests validated on the leader and applied later in any order, replicas, snapshot restore', params={'part': 0}, quick={'steps': 3}, thorough={'steps': 4}, covers=['granted', 'two grants', 'restored']),
                 dict(name='wide', what='the same with large increments and arbitrary counts and offsets', params={'part': 0, 'wide': 1}, quick={'steps': 1}, thorough={'steps': 2}, covers=['two grants']),
                 dict(name='residue1', what='one grant holds the whole requested batch (increment 1)', params={'part': 1, 'inc': 1}, covers=['granted', 'rejected']),
                 dict(name='residue7', what='one grant holds the whole requested batch (increment 7)', params={'part': 1, 'inc': 7}, quick={'maxq': 1}, thorough={'maxq': 15}, covers=['granted'])],
          outside='ids beyond 2^40, more operations than the step bound, forced updates (an explicit administrator decision)')
