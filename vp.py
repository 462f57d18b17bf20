#!/usr/bin/env python3
"""Driver: compile harness + /repo sources to LLVM bitcode, execute them symbolically (build/sx, Z3), replay every
counterexample natively against the real code, write evidence. Usage: vp.py check PID [--tier quick|thorough] | replay FILE | list"""
import sys, os, json, time, subprocess, shutil, tempfile, concurrent.futures as cf, hashlib
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, V)
BUILD = os.path.join(V, 'build'); EV = os.path.join(V, 'evidence')
SX = os.path.join(BUILD, 'sx')
NCPU = min(8, os.cpu_count() or 1)
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'
GXX = 'g++'
def tool(n): return shutil.which(n + '-18') or '/usr/lib/llvm-18/bin/' + n
BCFLAGS = ['-std=c++17', '-O1', '-gline-tables-only', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off',
           '-fno-pic', '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-w', '-include', 'cassert', '-I' + V + '/rt', '-isystem', V + '/rt/shadow', '-isystem', V + '/rt/hf',
           '-I' + REPO + '/src', '-I' + REPO + '/lib/tetgen']
NATFLAGS = ['-std=c++17', '-O1', '-g1', '-w', '-DNDEBUG', '-DVP_NATIVE', '-ffp-contract=off', '-include', 'cassert', '-fopenmp', '-fsanitize=address', '-fno-omit-frame-pointer',
            '-I' + V + '/rt', '-isystem', V + '/rt/hf', '-I' + REPO + '/src', '-I' + REPO + '/lib/tetgen']

def run(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **k)
def must(cmd, what):
    r = run(cmd)
    if r.returncode:
        sys.stderr.write('%s failed: %s\n%s\n' % (what, ' '.join(cmd), r.stderr[-4000:])); raise SystemExit(2)

def srcfile(s):
    return s if s.startswith('/') else os.path.join(REPO, 'lib/tetgen' if s.startswith('tetgen') or s.startswith('predicates') else 'src', s + ('.cxx' if s.startswith(('tetgen', 'predicates')) else '.cpp'))

# the triangulation library keeps its own robust predicates, brille's calls go to the contract of geo_model.h
def tgdefs(s): return ['-DTETLIBRARY', '-Dorient3d=tg_orient3d', '-Dorient2d=tg_orient2d'] if s.startswith(('tetgen', 'predicates')) else []

def compile_bc(c, wd, tier, pool):
    h = os.path.join(V, 'harness', c['harness']); defs = ['-D' + d for d in c.get('defs', [])] + (['-DVP_THOROUGH'] if tier == 'thorough' else [])
    jobs = []
    jobs.append(pool.submit(must, [CLANG] + BCFLAGS + defs + ['-emit-llvm', '-c', h, '-o', wd + '/h.bc'], 'harness compilation'))
    jobs.append(pool.submit(must, [CLANG] + BCFLAGS + ['-fno-builtin', '-D__NO_CTYPE', '-emit-llvm', '-c', V + '/rt/rt.cpp', '-o', wd + '/rt.bc'], 'runtime compilation'))
    objs = [wd + '/h.bc', wd + '/rt.bc']
    for s in c.get('srcs', []):
        o = wd + '/' + s + '.bc'; objs.append(o)
        jobs.append(pool.submit(must, [CLANG] + BCFLAGS + defs + tgdefs(s) + ['-emit-llvm', '-c', srcfile(s), '-o', o], 'source compilation'))
    for j in jobs: j.result()
    must([tool('llvm-link')] + objs + ['-o', wd + '/all.bc'], 'llvm-link')
    keep = ','.join('vp_main_' + e['name'] for e in c['entries']) + ',vp_dtor_nop,_ZNKSt9exception4whatEv'
    must([tool('opt'), '-passes=internalize,globaldce', '-internalize-public-api-list=' + keep, wd + '/all.bc', '-o', wd + '/prog.bc'], 'opt')

def compile_native(c, wd, tier, pool):
    h = os.path.join(V, 'harness', c['harness']); defs = ['-D' + d for d in c.get('defs', [])] + (['-DVP_THOROUGH'] if tier == 'thorough' else [])
    units = [(h, []), (V + '/rt/vp_native.cpp', [])] + [(srcfile(s), tgdefs(s)) for s in c.get('srcs', [])]
    objs = []; jobs = []
    for i, (u, td) in enumerate(units):
        o = '%s/n%d.o' % (wd, i); objs.append(o); jobs.append(pool.submit(must, [GXX] + NATFLAGS + (['-fno-sanitize=address'] if 'predicates' in u else []) + defs + td + ['-c', u, '-o', o], 'native compilation'))
    for j in jobs: j.result()
    must([GXX, '-fsanitize=address', '-fopenmp', '-rdynamic'] + objs + ['-ldl', '-o', wd + '/native'], 'native link')

def native_run(wd, entry, inputs, timeout=15):
    f = tempfile.NamedTemporaryFile('w', dir=wd, suffix='.in', delete=False)
    for i in inputs: f.write('%s %s\n' % (i['k'], i['v']))
    f.close()
    env = dict(os.environ, OMP_NUM_THREADS='1', ASAN_OPTIONS='detect_leaks=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=4000')
    try: r = subprocess.run([wd + '/native', 'vp_main_' + entry, f.name], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=wd)
    except subprocess.TimeoutExpired: return 'timeout', ''
    return r.returncode, r.stderr.decode('utf8', 'replace')

def confirm(v, rc):
    if rc == 'timeout': return v['kind'] == 'steps'
    return rc not in (0, 2, 11, 12)

def sx(wd, e, tier, jobs, tmul=1.0):
    out = '%s/%s.out' % (wd, e['name'])
    t = e.get('time', 60) if tier == 'quick' else e.get('ttime', max(240, 3 * e.get('time', 60)))
    cmd = [SX, wd + '/prog.bc', 'vp_main_' + e['name'], '--out', out, '--jobs', str(jobs), '--pool', wd + '/pool', '--time', str(t * tmul), '--steps', str(e.get('steps', 1000000)), '--rlimit', str(e.get('rlimit', 0)), '--samples', '1', '--maxviol', str(e.get('maxviol', 3))]
    if e.get('solver'): cmd += ['--solver', e['solver']]
    t0 = time.time()
    try: r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=t * tmul + 60, preexec_fn=os.setsid); rc, err = r.returncode, r.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as x:
        rc, err = -1, 'engine killed after its time limit'; subprocess.run(['pkill', '-9', '-f', wd + '/prog.bc vp_main_' + e['name'] + ' '], check=False)
    res = dict(name=e['name'], rc=rc, err=err[-800:], viol=[], samples=[], covers=set(), notes=[], funcs=set(), ended={}, stats={}, final=None, secs=time.time() - t0)
    if os.path.exists(out):
        for l in open(out):
            try: d = json.loads(l)
            except Exception: continue
            if d['type'] == 'violation': res['viol'].append(d)
            elif d['type'] == 'sample': res['samples'].append(d)
            elif d['type'] == 'final': res['final'] = d
            elif d['type'] == 'stats':
                for k, x in d.items():
                    if isinstance(x, (int, float)): res['stats'][k] = res['stats'].get(k, 0) + x
                res['covers'].update(d['covers']); res['funcs'].update(d['funcs']); res['notes'] += d['notes']
                for k, x in d['ended'].items(): res['ended'][k] = res['ended'].get(k, 0) + x
    return res

def demangle(names):
    f = shutil.which('c++filt') or tool('llvm-cxxfilt')
    if not names: return []
    r = subprocess.run([f], input='\n'.join(names), stdout=subprocess.PIPE, text=True); return r.stdout.split('\n')[:len(names)]

def known():
    p = V + '/known_findings.json'
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}

def check(pid, tier):
    from checks import CHECKS
    c = CHECKS[pid]; t0 = time.time(); os.makedirs(BUILD, exist_ok=True); os.makedirs(EV, exist_ok=True)
    if not os.path.exists(SX): must(['make', '-C', V + '/engine'], 'engine build')
    wd = tempfile.mkdtemp(prefix=pid + '-', dir=BUILD); rc = 0
    try: rc = check_in(pid, tier, c, wd, t0)
    finally: shutil.rmtree(wd, ignore_errors=True)
    return rc

def check_in(pid, tier, c, wd, t0):
    ents = [e for e in c['entries'] if tier in e.get('tiers', ('quick', 'thorough'))]
    c = dict(c, entries=ents)
    with cf.ThreadPoolExecutor(NCPU) as pool:
        compile_bc(c, wd, tier, pool); tc = time.time() - t0
        nat = cf.ThreadPoolExecutor(1).submit(compile_native, c, wd, tier, cf.ThreadPoolExecutor(2))
        par = max(1, min(len(ents), NCPU)); jobs = NCPU
        sp = cf.ThreadPoolExecutor(par)
        ordered = sorted(ents, key=lambda e: -e.get('time', 60))
        res = list(sp.map(lambda e: sx(wd, e, tier, e.get('jobs', jobs)), ordered))
    try: nat.result()
    except SystemExit: sys.stderr.write('native build for replay failed\n'); return 2
    K = [k for k in known()['findings'] if k['property'] == pid]
    confirmed, unconfirmed, kf, vac = [], [], {}, []
    seen = set()
    for r in res:
        for v in r['viol']:
            rcn, err = native_run(wd, r['name'], v['inputs']); v['entry'] = r['name']; v['native'] = rcn; v['native_err'] = err[-1500:]
            if not confirm(v, rcn): unconfirmed.append(v); continue
            k = next((k for k in K if k['entry'] == r['name'] and (not k.get('msg') or k['msg'] == v['msg']) and k.get('kind', v['kind']) == v['kind']), None)
            if k: kf[k['id']] = k; continue
            key = (r['name'], v['kind'], v['msg'])
            if key in seen: continue
            seen.add(key); confirmed.append(v)
    nval = nval_ok = 0; samples = []
    for r in res:
        for s in r['samples'][:3]:
            if not s['inputs']: continue
            rcn, err = native_run(wd, r['name'], s['inputs']); nval += 1; ok = rcn == 0; nval_ok += ok
            if not ok: r['notes'].append('sample path replays natively with %s: %s' % (rcn, ' '.join(err.split('\n')[-3:])[:300]))
            if len(samples) < 6: samples.append({'entry': r['name'], 'inputs': {('%d:%s' % (i, x['n'])): x['v'] for i, x in enumerate(s['inputs'][:40])}, 'native_replay': 'agrees' if ok else str(rcn)})
    ebyname = {e['name']: e for e in ents}
    for r in res:
        miss = set(ebyname[r['name']].get('covers', ['end'])) - r['covers']
        complete = r['final'] and r['final']['incomplete'] == 0
        if miss and complete and not any(v['entry'] == r['name'] for v in confirmed) and not r['viol']: vac.append((r['name'], sorted(miss)))
        r['complete'] = bool(complete) and r['rc'] == 0
    tot = lambda k: sum(r['stats'].get(k, 0) for r in res)
    fin = lambda k: sum((r['final'] or {}).get(k, 0) for r in res)
    fl = sorted(set().union(*[r['funcs'] for r in res])) if res else []
    dm = [d for d in demangle(fl)]
    repo_funcs = sorted({d.split('(')[0][:140] for d in dm if 'brille' in d or d.startswith(('smp', 'lap', 'Munkres'))})
    evd = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1), level='model_checking',
        coverage=dict(states=int(fin('paths')), transitions=int(fin('steps')), traces_validated_against_impl=nval_ok, samples=samples or [{'note': 'no symbolic inputs recorded'}],
            exhaustive=all(r['complete'] for r in res),
            explanation='states = symbolic paths executed to the end, transitions = LLVM instructions executed symbolically; every assertion on every path is a solver query over all inputs of that path',
            solver=dict(name='Z3', queries=int(tot('queries')), sat=int(tot('sat')), unsat=int(tot('unsat')), unknown=int(tot('unknown')), decided_by_normalisation=int(tot('simp')), seconds=round(tot('solver_s'), 2)),
            assertions_checked=int(tot('asserts')), assertions_with_symbolic_condition=int(tot('asserts_sym')), memory_accesses_checked=int(tot('mem_checks')), path_forks=int(fin('forks')),
            bounds=c.get('bounds', ''), outside=c.get('outside', ''),
            functions_encoded=len(fl), repo_functions_encoded=repo_funcs[:400],
            entries=[dict(entry=r['name'], what=ebyname[r['name']].get('what', ''), complete=r['complete'], paths=(r['final'] or {}).get('paths'), ended=r['ended'], queries=r['stats'].get('queries', 0), solver_s=round(r['stats'].get('solver_s', 0), 2), asserts=r['stats'].get('asserts', 0), covers=sorted(r['covers']), wall_s=round(r['secs'], 1), notes=sorted(set(r['notes']))[:8], engine_error=r['err'] if r['rc'] else '') for r in res],
            unconfirmed_counterexamples=[dict(entry=v['entry'], kind=v['kind'], msg=v['msg'], loc=v['loc'], native=str(v['native'])) for v in unconfirmed][:10],
            samples_replayed=nval),
        assumptions=c.get('assumptions', []) + ['floating point values are treated as real numbers unless an entry says IEEE; standard-library out-of-line code, streams and HighFive are the models in /verif/rt; single thread (OpenMP pragmas not compiled in)'],
        wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    json.dump(evd, open(os.path.join(EV, pid + '.json'), 'w'), indent=1)
    for k in kf.values(): print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for v in unconfirmed: print('note: unconfirmed counterexample (not reported) entry=%s %s: %s at %s native=%s' % (v['entry'], v['kind'], v['msg'], v['loc'], v['native']))
    for r in res:
        if not r['complete']: print('note: entry %s incomplete: ended=%s %s %s' % (r['name'], r['ended'], sorted(set(r['notes']))[:3], r['err'][-200:]))
        if os.environ.get('VP_VERBOSE'): print('  %-28s %6.1fs paths=%s maxsteps=%s queries=%s solver=%.1fs asserts=%s covers=%s ended=%s %s' % (r['name'], r['secs'], (r['final'] or {}).get('paths'), (r['final'] or {}).get('max_path_steps'), r['stats'].get('queries'), r['stats'].get('solver_s', 0), r['stats'].get('asserts'), sorted(r['covers']), r['ended'], sorted(set(r['notes']))[:2]))
    for v in confirmed:
        os.makedirs(EV + '/replay', exist_ok=True)
        p = '%s/replay/%s-%s-%s.json' % (EV, pid, v['entry'], hashlib.sha1((v['kind'] + v['msg']).encode()).hexdigest()[:8])
        json.dump(dict(property=pid, tier=tier, entry=v['entry'], kind=v['kind'], msg=v['msg'], loc=v['loc'], stack=v['stack'], inputs=v['inputs'], native_exit=str(v['native']), native_stderr=v['native_err'], how='python3 %s/vp.py replay %s' % (V, p)), open(p, 'w'), indent=1)
        print('  %s: %s [%s] at %s; inputs %s' % (v['entry'], v['msg'], v['kind'], v['loc'], ' '.join('%s=%s' % (i['n'], i['v']) for i in v['inputs'][:24])))
        print('VIOLATION property=%s replay=%s' % (pid, p))
    if confirmed: return 1
    if vac:
        print('error: entries never reach their assertions: %s' % vac); return 3
    print('ok: %s (%s) %d entries, %d paths, %d queries (%.1f s solver), compile %.0f s, total %.0f s' % (pid, tier, len(res), fin('paths'), tot('queries'), tot('solver_s'), tc, time.time() - t0))
    return 0

def replay(f):
    from checks import CHECKS
    d = json.load(open(f)); c = CHECKS[d['property']]; wd = tempfile.mkdtemp(prefix='replay-', dir=BUILD)
    try:
        compile_native(c, wd, d.get('tier', 'quick'), cf.ThreadPoolExecutor(NCPU)); rc, err = native_run(wd, d['entry'], d['inputs']); print(err); print('native exit', rc)
        return 0 if rc == 0 else 1
    finally: shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__':
    a = sys.argv[1:]
    if a[0] == 'check':
        tier = os.environ.get('VERIF_TIER', 'quick')
        if '--tier' in a: tier = a[a.index('--tier') + 1]
        sys.exit(check(a[1], tier))
    elif a[0] == 'replay': sys.exit(replay(a[1]))
    elif a[0] == 'list':
        from checks import CHECKS
        for k, c in CHECKS.items(): print(k, c['harness'], len(c['entries']))
