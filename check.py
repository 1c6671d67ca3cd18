#!/usr/bin/env python3
"""check.py <property id> [quick|thorough]: decides one property by symbolic execution of the current /repo sources.

1. compiles the harness and the real source files named for the property to LLVM IR (clang -O1),
2. runs the symbolic executor (engine/) over every part of the check: each path's assertions go to the SMT solver,
3. replays every counterexample natively against the same real code; only reproduced ones are VIOLATIONs,
4. replays sampled completed paths natively and compares the observed values (validation of the encoding),
5. writes evidence/<id>.json."""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('DINGO_REPO', '/repo')
sys.path.insert(0, os.path.join(HERE, 'checks'))
CXX, CC, LINK, OPT = '/usr/bin/clang++-18', '/usr/bin/clang-18', 'llvm-link-18', 'opt-18'
BCF = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-DNDEBUG', '-w', '-fno-access-control']
NCPU = os.cpu_count() or 4

def sh(cmd, **kw):
    if os.environ.get('TIMES'):
        t = time.time(); r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw); print('  %.1fs %s' % (time.time() - t, ' '.join(cmd)[:60] + ' .. ' + ' '.join(cmd)[-60:]), file=sys.stderr); return r
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def need(r, what):
    if r.returncode != 0:
        print('ERROR: %s failed\n%s' % (what, '\n'.join(l for l in r.stdout.split('\n') if 'error' in l or 'undefined' in l or 'multiple' in l or 'relocation' in l)[:3000] or r.stdout[-3000:])); sys.exit(2)

def engine():
    exe = os.path.join(HERE, 'build', 'symx')
    src = [os.path.join(HERE, 'engine', f) for f in os.listdir(os.path.join(HERE, 'engine'))]
    if not os.path.exists(exe) or os.path.getmtime(exe) < max(os.path.getmtime(f) for f in src):
        need(sh(['bash', os.path.join(HERE, 'engine', 'build.sh')]), 'engine build')
    return exe

def md5(s): return hashlib.md5(s if isinstance(s, bytes) else s.encode()).hexdigest()
_fh = {}
def fhash(f):
    if f not in _fh:
        try: _fh[f] = md5(open(f, 'rb').read())
        except OSError: _fh[f] = ''
    return _fh[f]
CACHE = os.path.join(HERE, 'build', 'cache')
def gendir():
    """the generated message classes, in a directory named by their content"""
    if gendir.d: return gendir.d
    tmp = tempfile.mkdtemp(prefix='gen_', dir=os.path.join(HERE, 'build'))
    need(sh(['python3', os.path.join(HERE, 'shim', 'pbgen.py'), tmp], env=dict(os.environ, DINGO_SRC=REPO + '/src')), 'message generation')
    fs = sorted(os.path.join(r, f) for r, _, ff in os.walk(tmp) for f in ff)
    d = os.path.join(HERE, 'build', 'gen-' + md5(''.join(os.path.basename(f) + fhash(f) for f in fs))[:12])
    if os.path.isdir(d): shutil.rmtree(tmp)
    else: os.rename(tmp, d)
    hs = sorted(os.path.join(r, f) for x in ('shim', 'rt') for r, _, ff in os.walk(os.path.join(HERE, x)) for f in ff if f.endswith('.h') or '.' not in f)
    gendir.base = md5(d + ''.join(f + fhash(f) for f in hs)); gendir.d = d
    return d
gendir.d = None
def cached(fl, f, ext):
    """compiles f unless an object made with the same flags from files of the same content is there"""
    os.makedirs(CACHE, exist_ok=True)
    k = os.path.join(CACHE, md5(' '.join([gendir.base, f, ext] + fl))[:20]); out = k + ext
    if os.path.exists(out) and os.path.exists(k + '.json'):
        if all(fhash(d) == h for d, h in json.load(open(k + '.json')).items()): return None, f, out
    tmp = '%s.%d.tmp' % (k, os.getpid())
    r = sh([CXX if f.endswith(('.cc', '.h')) else CC] + fl + ['-MD', '-MF', tmp + '.d', f, '-o', tmp])
    if r.returncode == 0:
        ds = open(tmp + '.d').read().replace('\\\n', ' ').split()[1:]
        json.dump({d: fhash(d) for d in ds if not d.startswith('/usr/') and not d.endswith('.pch')}, open(k + '.json', 'w')); os.rename(tmp, out)
    if os.path.exists(tmp + '.d'): os.unlink(tmp + '.d')
    return r, f, out
PRE = os.path.join(HERE, 'shim', 'shim_pre.h')
def jobs_of(chk, native_san=False):
    """[(flags, file, needs_pch, ext, library)]"""
    gen = gendir()
    inc = ['-I' + os.path.join(HERE, 'rt'), '-I' + gen, '-I' + os.path.join(HERE, 'shim'), '-I' + REPO + '/src', '-I' + os.path.join(HERE, 'harness')]
    defs = ['-D' + d for d in chk.get('defs', [])]
    srcs = [('repo', os.path.join(REPO, 'src', f)) for f in chk['src']] + [('h', os.path.join(HERE, 'harness', chk['harness']))] + [('rt', os.path.join(HERE, 'rt', f)) for f in ('shim_rt.cc', 'sched.cc')] + [('h', os.path.join(HERE, 'rt' if f.startswith('rt_') else 'harness', f)) for f in chk.get('extra', [])]
    srcs += [('pb', os.path.join(gen, 'proto', f)) for f in sorted(os.listdir(gen + '/proto')) if f.endswith('.cc')]
    out = []; ext = '.san.o' if native_san else '.bc'
    for k, f in srcs:
        nopre = k == 'rt'
        fl = ['-std=c++17'] + BCF + (['-I' + os.path.join(HERE, 'rt'), '-I' + os.path.join(HERE, 'shim')] if nopre else inc + (defs if k != 'pb' else []))
        if nopre and 'shim_rt' in f: fl += inc + ['-include', 'shim_std.h']
        if chk.get('tsan') and (k == 'repo' or chk.get('tsan') == 'all' and k == 'h'): fl += ['-fsanitize=thread', '-mllvm', '-tsan-instrument-func-entry-exit=0']
        if chk.get('tsan') and nopre and native_san: fl += ['-DTRACK_FREE']
        if native_san: fl += ['-g', '-ffunction-sections'] + (['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=vptr,function,alignment,null'] if k != 'rt' and not chk.get('tsan') else [])
        else: fl += ['-emit-llvm']
        out.append((fl, f, not nopre, ext, False))
    if not native_san:
        for f in ('runtime.cc', 'libc.c'): out.append((([] if f.endswith('.c') else ['-std=c++17']) + BCF + (['-fno-builtin'] if f.endswith('.c') else []) + ['-I' + os.path.join(HERE, 'rt'), '-emit-llvm'], os.path.join(HERE, 'rt', f), False, ext, True))
    return out
def run_jobs(jobs):
    pre = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        fs = {}
        for fl, f, p, ext, lib in jobs:
            base = tuple(x for x in fl if x != '-emit-llvm')
            if p and base not in fs: fs[base] = ex.submit(cached, list(base) + ['-x', 'c++-header', '-Xclang', '-fno-pch-timestamp'], PRE, '.pch')
        for b, x in fs.items(): r, f, out = x.result(); (r is None) or need(r, 'precompiling ' + f); pre[b] = out
        def one(j):
            fl, f, p, ext, lib = j
            return cached(fl + (['-include-pch', pre[tuple(x for x in fl if x != '-emit-llvm')]] if p else []) + ['-c'], f, ext) + (lib,)
        order = sorted(jobs, key=lambda j: -(os.path.getsize(j[1]) if os.path.exists(j[1]) else 0))
        return list(ex.map(one, order))

def build(chk, work, native_san=False):
    outs = []; lib = []; ovr = []
    for r, f, out, l in run_jobs(jobs_of(chk, native_san)):
        if r is not None: need(r, 'compiling ' + f)
        if os.path.basename(f).startswith('ovr_'):
            if native_san: continue
            ovr.append(out)
        (lib if l else outs).append(out)
    outs.sort(); lib.sort()
    if native_san:
        exe = os.path.join(work, 'replay.san')
        need(sh([CXX, '-std=c++17', '-w', '-fsanitize=address,undefined', '-I' + os.path.join(HERE, 'rt'), os.path.join(HERE, 'rt', 'replay.cc')] + outs + ['-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-o', exe, '-lpthread']), 'sanitizer replay link')
        return exe
    prog = os.path.join(work, 'prog.bc'); full = os.path.join(work, 'full.bc')
    need(sh([LINK] + [o for o in outs if o not in ovr] + ['--override=' + o for o in ovr] + ['-o', work + '/p0.bc']), 'linking IR')
    need(sh([OPT, '-passes=internalize,globaldce', '-internalize-public-api-list=harness_main', work + '/p0.bc', '-o', prog]), 'internalize')
    need(sh([LINK, prog, '--only-needed'] + lib + ['-o', full]), 'linking runtime IR')
    exe = os.path.join(work, 'replay')
    def native(): need(sh([CXX, '-std=c++17', '-w', '-O0', '-I' + os.path.join(HERE, 'rt'), '-ffunction-sections', '-x', 'ir', prog, '-x', 'c++', os.path.join(HERE, 'rt', 'replay.cc'), '-Wl,--gc-sections', '-Wl,--unresolved-symbols=ignore-all', '-no-pie', '-o', exe, '-lpthread']), 'native link'); return exe
    ex = cf.ThreadPoolExecutor(1); return full, ex.submit(native)   # linked while the symbolic execution runs
def prebuild():
    """setup: the engine, and the objects of every check for the tree as it is now"""
    import registry
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True); engine(); seen = set(); jobs = []
    for c in registry.CHECKS.values():
        for u in c.get('units') or [c]:
            for j in jobs_of(u):
                k = (tuple(j[0]), j[1])
                if k not in seen: seen.add(k); jobs.append(j)
    bad = [f for r, f, o, l in run_jobs(jobs) if r is not None and r.returncode]
    print('prebuilt %d objects%s' % (len(jobs) - len(bad), ', failed: ' + ' '.join(bad) if bad else ''))

def write_replay(path, inputs, params, note):
    with open(path, 'w') as f:
        f.write('# %s\n' % note.replace('\n', ' | '))
        for k, v in params.items(): f.write('p %s %d\n' % (k, v))
        for nm, bits, val in inputs: f.write('i %d %d %s\n' % (bits, int(val), nm))
def run_replay(exe, path):
    try: r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, SYM_REPLAY=path, ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1'), timeout=60)
    except subprocess.TimeoutExpired: return 99, 'timeout'
    return r.returncode, r.stdout.decode(errors='replace')
def reproduced(kind, msg, rc, out):
    if kind == 'assert': return rc == 10
    return rc == 10 or rc < 0 or rc == 1 or 'runtime error' in out or 'AddressSanitizer' in out or 'terminate called' in out

def main():
    import registry
    if sys.argv[1] == '--prebuild': return prebuild()
    pid = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    chk = registry.CHECKS[pid]; t0 = time.time()
    os.makedirs(os.path.join(HERE, 'build'), exist_ok=True); os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='chk_%s_' % pid, dir=os.path.join(HERE, 'build'))
    rc = 0
    try: rc = decide(pid, tier, seed, chk, work, t0)
    finally:
        if not os.environ.get('KEEP'): shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush(); sys.exit(rc)

def known_for(pid):
    out = []; p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'KNOWN property=(\S+) match="([^"]*)" (.*)', l.strip())
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3)))
    return out

def decide(pid, tier, seed, chk, work, t0):
    exe = engine()
    units = chk.get('units') or [chk]
    parts = []; built = {}
    tb = time.time()
    for ui, u in enumerate(units):
        w = os.path.join(work, 'u%d' % ui); os.makedirs(w)
        full, rep = build(u, w)
        built[ui] = (full, rep, w)
        for p in u['parts']:
            if tier == 'quick' and p.get('thorough_only'): continue
            pr = dict(p.get('params', {})); pr.update(p.get(tier, {})); parts.append((ui, p, pr))
    tb = time.time() - tb
    known = known_for(pid)
    budget = float(os.environ.get('CHECK_TIME', chk.get('time', {}).get(tier, 420 if tier == 'quick' else 3000)))
    P = max(1, min(len(parts), 4)); J = NCPU if P <= 3 else max(2, NCPU // 2)
    def run(i):
        ui, p, pr = parts[i]; out = os.path.join(work, 'r%d.json' % i)
        cap = p.get('time', {}).get(tier, budget) if isinstance(p.get('time'), dict) else p.get('time', budget)
        left = min(cap, max(10, budget + tb + 60 - (time.time() - t0)))
        cmd = [exe, built[ui][0], '--out', out, '--tmp', work, '--time', str(left), '--steps', str(p.get('steps', 60000000)), '-j', str(J), '--samples', str(p.get('samples', 6)), '--solver-timeout', str(p.get('solver_ms', 60000)), '--root', REPO + '/src', '--seed', str(seed), '--mem', str(3000 if P > 2 else 3500)]
        for k, v in pr.items(): cmd += ['--param', '%s=%d' % (k, v)]
        for m, _ in known: cmd += ['--known', m]
        if p.get('bfs'): cmd.append('--bfs')
        if tier == 'thorough' and i < 3: d = os.path.join(work, 'dump%d' % i); os.makedirs(d, exist_ok=True); cmd += ['--dump', d]
        r = sh(cmd, timeout=left + 240)
        if r.returncode != 0 or not os.path.exists(out): return i, None, r.stdout[-800:]
        return i, json.load(open(out)), ''
    results = {}
    with cf.ThreadPoolExecutor(P) as ex:
        for i, res, err in ex.map(run, range(len(parts))):
            results[i] = res
            if res is None: print('ERROR: symbolic executor failed on part %s: %s' % (parts[i][1]['name'], err)); return 2
    # ---- verdicts
    rdir = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(pid + '-'): os.unlink(os.path.join(rdir, f))
    viol = []; unconf = []; knownhit = {}; nrep = 0
    san = {}
    for i, res in results.items():
        ui, p, pr = parts[i]
        for key, v in res['violations'].items():
            txt = '%s: %s @ %s' % (v['kind'], v['msg'], v.get('trace', ''))
            hit = [d for m, d in known if m in v['msg'] or m in txt]
            path = os.path.join(rdir, '%s-%s-%d.txt' % (pid, p['name'], nrep)); nrep += 1
            write_replay(path, v['inputs'], pr, txt)
            rc, out = run_replay(built[ui][1].result(), path)
            ok = reproduced(v['kind'], v['msg'], rc, out)
            if not ok and v['kind'] in ('memory', 'arith', 'ub', 'abort', 'exception', 'stack'):
                if ui not in san: san[ui] = build(units[ui], built[ui][2], native_san=True)
                rc, out = run_replay(san[ui], path); ok = reproduced(v['kind'], v['msg'], rc, out)
            if hit: 
                if ok: knownhit[hit[0]] = (path, txt)
                continue
            (viol if ok else unconf).append((p['name'], txt, path, rc, out[-400:]))
    # ---- validation of the encoding on sampled paths
    val = mism = 0; samples = []; misl = []
    for i, res in results.items():
        ui, p, pr = parts[i]
        if p.get('novalidate'): continue
        for n, s in enumerate(res['samples'][:p.get('samples', 6)]):
            if isinstance(s, str): s = json.loads(s)
            path = os.path.join(work, 's%d_%d.txt' % (i, n)); write_replay(path, s['inputs'], pr, 'sampled path')
            rc, out = run_replay(built[ui][1].result(), path)
            obs = [tuple(l.split()[1:3]) for l in out.split('\n') if l.startswith('OBS ')]
            exp = [(str(k), str(v)) for k, v in s['obs']]
            if rc == 0 and obs == exp: val += 1
            else: mism += 1; misl.append({'part': p['name'], 'rc': rc, 'inputs': s['inputs'][:40], 'expected': exp[:20], 'native': obs[:20], 'out': out[-300:]})
            if len(samples) < 12: samples.append({'part': p['name'], 'inputs': {k: v for k, _, v in s['inputs'][:24]}, 'observed': dict(s['obs'][:16]), 'native_agrees': rc == 0 and obs == exp})
    # ---- cross-check of dumped queries with other solvers (thorough)
    xc = None
    if tier == 'thorough': xc = crosscheck(work)
    tot = {}
    for res in results.values():
        for k, v in res['stats'].items(): tot[k] = max(tot.get(k, 0), v) if k in ('maxq', 'wall', 'workers') else tot.get(k, 0) + v
    inc = {}; covers = {}; missing = []
    per = []
    for i, res in results.items():
        ui, p, pr = parts[i]
        for k, v in res['incomplete'].items(): inc['%s: %s' % (p['name'], k)] = v
        for k, v in res['covers'].items(): covers[k] = covers.get(k, 0) + v
        miss = [c for c in p.get('covers', []) if c not in res['covers']]
        missing += ['%s: %s' % (p['name'], c) for c in miss]
        per.append({'part': p['name'], 'what': p.get('what', ''), 'bounds': pr, 'paths': int(res['stats']['paths']), 'completed': int(res['stats']['completed']), 'assertions_decided': int(res['stats']['asserts']), 'solver_queries': int(res['stats']['queries']), 'complete_within_bounds': not res['incomplete'], 'wall_s': round(res['stats']['wall'], 1)})
    funcs = sorted({f for res in results.values() for f in res['functions']})
    fshort = sorted({f.replace(REPO + '/src/', '') for f in funcs})
    cov = dict(states=int(tot.get('paths', 0)), transitions=int(tot.get('steps', 0)), traces_validated_against_impl=val, samples=samples,
               exhaustive_within_bounds=not inc, parts=per, assertions_decided=int(tot.get('asserts', 0)), assertions_with_symbolic_operands=int(tot.get('assertsSym', 0)), symbolic_branches=int(tot.get('branchesSym', 0)),
               solver=dict(backend='Z3 (in process)', queries=int(tot.get('queries', 0)), cache_hits=int(tot.get('cacheHits', 0)), sat=int(tot.get('sat', 0)), unsat=int(tot.get('unsat', 0)), unknown=int(tot.get('unknown', 0)), time_s=round(tot.get('time', 0), 2), slowest_query_s=round(tot.get('maxq', 0), 3)),
               functions_encoded=fshort, covers=covers, unreached_witnesses=missing, not_explored=inc, encoding_mismatches=misl[:5], unconfirmed_counterexamples=[dict(part=a, what=b, replay_rc=d) for a, b, c, d, e in unconf[:10]], build_s=round(tb, 1), outside_bounds=chk.get('outside', ''))
    if xc: cov['solver_crosscheck'] = xc
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov, assumptions=chk.get('assumes', []) + ['third-party libraries (protobuf, brpc/bthread, braft, RocksDB, glog) are replaced by the models in shim/ and rt/', 'clang -O1 IR of the sources; little-endian x86-64'], wall_s=round(time.time() - t0, 2), violations=len(viol))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d paths, %d assertions decided, %d queries (%.1fs solver), %d functions of the real code, validated %d/%d sampled paths, wall %.1fs' % (pid, tier, cov['states'], cov['assertions_decided'], cov['solver']['queries'], cov['solver']['time_s'], len(fshort), val, val + mism, time.time() - t0))
    if os.environ.get('VERBOSE'):
        for x in per: print('   ', x['part'], x['bounds'], 'paths', x['paths'], 'asserts', x['assertions_decided'], 'wall', x['wall_s'], '' if x['complete_within_bounds'] else 'INCOMPLETE')
    for k, v in inc.items(): print('  not explored: %s (%d)' % (k[:300], v))
    for m in missing: print('  warning: witness not reached: %s' % m)
    for x in misl[:3]: print('  warning: encoding mismatch: %s' % json.dumps(x)[:700])
    for a, b, c, d, e in unconf[:5]: print('  note: counterexample not reproduced natively (part %s, rc %d): %s' % (a, d, b[:300]))
    for d, (path, txt) in knownhit.items(): print('KNOWN-FINDING: property=%s %s' % (pid, d))
    seen = set()
    for a, b, c, d, e in viol:
        print('  counterexample (part %s): %s' % (a, b[:500]))
    if viol:
        print('VIOLATION property=%s replay=%s' % (pid, viol[0][2])); return 1
    return 0

def crosscheck(work):
    agree = disagree = unk = 0; t = time.time(); n = 0
    for d in sorted(os.listdir(work)):
        if not d.startswith('dump'): continue
        for f in sorted(os.listdir(os.path.join(work, d)))[:25]:
            if not f.endswith('.smt2'): continue
            p = os.path.join(work, d, f); exp = 'unsat' if 'unsat' in f else 'sat' if 'sat' in f else None
            txt = open(p).read(); m = re.search(r'\(set-info :status (\w+)\)', txt); exp = m.group(1) if m else exp
            for cmd in (['cvc5', '--tlimit=20000', p], ['z3-new', '-T:20', p]):
                r = sh(cmd); o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''; n += 1
                if o not in ('sat', 'unsat'): unk += 1
                elif exp and o == exp: agree += 1
                elif exp: disagree += 1
            if time.time() - t > 300: break
    return dict(queries_rechecked=n, agree=agree, disagree=disagree, unknown=unk, solvers=['cvc5', 'z3-new'])

if __name__ == '__main__': main()
