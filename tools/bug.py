#!/usr/bin/env python3
"""bug.py save <id> <property> <needs> <breaks>   the edited tree is /tmp/wt, demo.cc and sources are in seeded/<id>
   bug.py check <id>...                          runs the property's check against the change"""
import json, os, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); WT = '/tmp/wt'
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def fresh():
    if not os.path.isdir(WT): sh('git -C /repo worktree prune; git clone -q /repo %s' % WT)
    sh('cd %s && git fetch -q && git reset -q --hard origin/HEAD && git clean -qfd' % WT)
    sh('cd %s && git reset -q --hard $(git -C /repo rev-parse HEAD)' % WT)
def kit(d):
    sh('cd %s && rm -rf /tmp/kit && mkdir -p /tmp/kit/rt /tmp/kit/harness && cp -r shim /tmp/kit/ && cp rt/sym.h rt/symsched.h rt/sched.cc rt/shim_rt.cc tools/kit/demo_rt.cc /tmp/kit/rt/ && cp harness/*.h /tmp/kit/harness/ && find /tmp/kit -name __pycache__ -prune -exec rm -rf {} + ; tar czf %s/kit.tgz -C /tmp/kit . && cp tools/kit/demo.sh %s/demo.sh && chmod +x %s/demo.sh' % (H, d, d, d))
def check(i, prop):
    t = time.time(); r = sh('cd %s && DINGO_REPO=%s python3 check.py %s quick' % (H, WT, prop)); v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'counterexample' in l or 'ERROR' in l]
    print('%s: check %s rc=%d %.0fs %s' % (i, prop, r.returncode, time.time() - t, ' | '.join(v)[:300]))
if sys.argv[1] == 'fresh': fresh()
if sys.argv[1] == 'save':
    i, prop, needs, breaks = sys.argv[2:6]; d = os.path.join(H, 'seeded', i); os.makedirs(d, exist_ok=True)
    sh('git -C %s diff > %s/patch.diff' % (WT, d))
    if not os.path.getsize(d + '/patch.diff'): sys.exit('empty patch')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    kit(d)
    a = sh('cd %s && bash %s/demo.sh' % (WT, d)); b = sh('cd /repo && bash %s/demo.sh' % d)
    print('with change rc=%d %s\nwithout rc=%d %s' % (a.returncode, a.stdout[-200:].strip(), b.returncode, b.stdout[-300:].strip()))
    check(i, prop); fresh()
if sys.argv[1] == 'check':
    for i in sys.argv[2:]:
        fresh(); d = os.path.join(H, 'seeded', i); r = sh('cd %s && git apply %s/patch.diff' % (WT, d))
        if r.returncode: print(i, 'does not apply', r.stdout[:200]); continue
        check(i, json.load(open(d + '/meta.json'))['property'])
    fresh()
