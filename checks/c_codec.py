def register(check):
    check('C01', harness='mvcc_codec.cc', src=['mvcc/codec.cc', 'common/serial_helper.cc'],
          parts=[dict(name='roundtrip', what='decode(encode(key,ts)) = (key,ts), memory-comparable order of encoded keys = (key asc, ts desc), no spurious equality', params={'part': 0}, quick={'maxlen': 9}, thorough={'maxlen': 18}, covers=['equal keys', 'prefix keys', 'different keys']),
                 dict(name='values', what='value packaging round trip for every flag and ttl', params={'part': 1}, quick={'maxlen': 4}, thorough={'maxlen': 12}),
                 dict(name='ranges', what='encoded range keeps exactly the keys of the plain range', params={'part': 2}, quick={'maxlen': 9}, thorough={'maxlen': 10})],
          outside='keys longer than the bound (two/three 8-byte groups); the codec processes groups independently')
