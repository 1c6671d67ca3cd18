#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks/."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(H, 'tools'), os.path.join(H, 'checks')]
import props, registry
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for p in props.PROPS: f.write(json.dumps(p, ensure_ascii=False) + '\n')
na = props.NOT_APPLICABLE; ids = [p['id'] for p in props.PROPS]
assert len(set(ids)) == len(ids)
checks = []
for p in props.PROPS:
    i = p['id']
    if i in registry.CHECKS:
        assert i not in na, i
        c = registry.CHECKS[i]
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': 'symbolic execution of the real code (LLVM IR regenerated from /repo on every run) with SMT-decided assertions, counterexamples replayed natively', 'level': 'model_checking',
                       'level_note': 'Exhaustive over all symbolic values and schedules within the bounds of its parts: ' + '; '.join('%s (%s)' % (q['name'], ', '.join('%s=%s' % kv for kv in {**q.get('params', {}), **q.get('quick', {})}.items() if kv[0] not in ('part',)) or 'no size bound') for u in (c.get('units') or [c]) for q in u['parts'] if not q.get('thorough_only'))[:900] + '. Outside: ' + c.get('outside', '-')})
    else: assert i in na, 'no check and no reason: ' + i
for i in registry.CHECKS: assert i in ids, i
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh && python3 check.py --prebuild', 'checks': checks, 'not_applicable': [{'property': i, 'reason': r} for i, r in na.items()]}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1, ensure_ascii=False)
print(len(checks), 'checks', len(na), 'not applicable')
