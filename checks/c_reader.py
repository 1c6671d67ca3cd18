def register(check):
    K = [('kv', 0), ('vector', 1), ('document', 2)]
    parts = []
    for n, k in K:
        parts.append(dict(name='get_' + n, what='point read at a timestamp returns the newest version <= ts unless deleted or expired (%s reader)' % n, params={'part': 0, 'kind': k, 'long': int(k == 1)}, quick={'len': 1, 'ver': 2}, thorough={'len': 2, 'ver': 2}, covers=['found', 'absent']))
        parts.append(dict(name='scan_' + n, what='scan/callback scan/count/min/max/reverse iteration at a timestamp agree with the versioned model (%s reader)' % n, params={'part': 1, 'kind': k, 'long': int(k > 0)}, quick={'nk': 2, 'ver': 2}, thorough={'nk': 3, 'ver': 2 if k == 0 else 1}, covers=['several results']))
    check('C02', harness='mvcc_reader.cc', src=['mvcc/reader.cc', 'mvcc/iterator.cc', 'mvcc/codec.cc', 'common/serial_helper.cc', 'common/helper.cc'], parts=parts,
          outside='more than 3 keys or 2 versions per key; keys longer than 9 bytes in point reads (the codec check covers key encoding); storage engine replaced by an ordered map')
