#!/usr/bin/env python3
"""Driver: run.py PROPERTY [--tier quick|thorough] [--repo DIR] [--keep] [-v]

Compiles /repo's current sources and the property's harnesses to LLVM bitcode,
executes them symbolically (build/symex), replays every counterexample and the
path witnesses against a native build of the same sources, writes
evidence/<id>.json.  Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: could not
be analysed (build failure)."""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time, threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import props as P

T0 = time.time()
NPROC = os.cpu_count() or 4
VERB = False
def log(*a):
    if VERB: print('[%6.1f]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

COMMON = ['-std=c++11', '-DNDEBUG', '-DEIGEN_MAX_CPP_VER=3', '-include', 'string', '-include', 'functional', '-w']
BC = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_NO_CPUID',
      '-ffp-contract=off', '-fno-math-errno', '-DVP_SYMBOLIC=1']
NAT = ['-O1', '-c', '-fno-omit-frame-pointer']

class BuildError(Exception): pass

def sh(cmd, timeout=600, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        return -999, '', 'timeout'

class Builder:
    def __init__(self, repo, work):
        self.repo, self.work = repo, work
        self.pool = cf.ThreadPoolExecutor(NPROC)
        self.fut = {}
        self.lock = threading.Lock()
    def once(self, key, fn):
        with self.lock:
            if key not in self.fut: self.fut[key] = self.pool.submit(fn)
            return self.fut[key]
    def incs(self, shim=False):
        r = []
        if shim: r += ['-I', os.path.join(HERE, 'shim')]
        return r + ['-I', os.path.join(self.repo, 'include'), '-I', '/usr/include/eigen3', '-I', os.path.join(HERE, 'harness'),
                    '-I', os.path.join(self.repo, 'applications', 'include'), '-I', os.path.join(self.repo, 'applications', 'src'), '-DVP_REPO="%s"' % self.repo, '-DVP_TOOL(x)=<%s/src/applications/x.cpp>' % self.repo]
    def compile(self, src, kind, defs=(), shim=False, extra=()):
        """kind: bc | nat | natp (with an exact fast_exp) | asan | tsan ; returns a future of the object path"""
        key = hashlib.md5(repr((src, kind, tuple(defs), shim, tuple(extra))).encode()).hexdigest()[:16]
        out = os.path.join(self.work, '%s-%s.%s' % (os.path.basename(src), key, 'bc' if kind == 'bc' else 'o'))
        def go():
            fl = {'bc': BC, 'nat': NAT, 'natp': NAT + ['-include', os.path.join(HERE, 'harness', 'exact_exp.hpp')], 'asan': NAT + ['-g1', '-fsanitize=address', '-D_GLIBCXX_ASSERTIONS'], 'tsan': NAT + ['-g1', '-fsanitize=thread']}[kind]
            cmd = ['clang++'] + COMMON + fl + self.incs(shim and kind == 'bc') + ['-D' + d for d in defs] + list(extra) + [src, '-o', out]
            rc, o, e = sh(cmd)
            if rc != 0 and shim and kind == 'bc':   # something the model of the streams lacks: take the real headers
                rc, o, e2 = sh([x for i, x in enumerate(cmd) if x != os.path.join(HERE, 'shim') and not (x == '-I' and cmd[i + 1] == os.path.join(HERE, 'shim'))])
            if rc != 0: raise BuildError('%s\n%s' % (' '.join(cmd), e[-3000:]))
            return out
        return self.once(key, go)
    def lib_sources(self):
        return sorted(glob.glob(os.path.join(self.repo, 'src', 'ldaplusplus', '**', '*.cpp'), recursive=True))
    def srcs(self, run):
        r = list(self.lib_sources()) if run.get('lib', True) else []
        for s in run.get('sources', []): r.append(os.path.join(self.repo, s))
        return r

def defs_of(run): return ['%s=%s' % (k, v) for k, v in sorted(run.get('defs', {}).items())]

def symex(b, run, tier, idx, seed):
    objs = [b.compile(s, 'bc', shim=True) for s in b.srcs(run)]
    h = b.compile(os.path.join(HERE, 'harness', run['harness']), 'bc', defs_of(run), shim=True)
    rt = b.compile(os.path.join(HERE, 'harness', 'rt_stubs.cpp'), 'bc', extra=['-fno-builtin'])
    files = [h.result()] + [o.result() for o in objs] + [rt.result()]
    out = os.path.join(b.work, 'ev%d.jsonl' % idx); summ = os.path.join(b.work, 'sum%d.json' % idx)
    cmd = [os.path.join(HERE, 'build', 'symex')] + files + ['--out', out, '--summary', summ]
    for k, v in run.get('intercept', P.INTERCEPT): cmd += ['--intercept', '%s=%s' % (k, v)]
    dl = run.get('deadline', 90 if tier == 'quick' else 900)
    cmd += ['--deadline', str(dl), '--par', str(run.get('par', 4))] + [str(x) for x in run.get('opts', [])]
    t = time.time()
    rc, o, e = sh(cmd, timeout=dl * 2 + 120)
    res = {'run': run, 'rc': rc, 'stderr': e[-2000:], 'events': [], 'sum': {}, 'wall': time.time() - t}
    if os.path.exists(out):
        for l in open(out, errors='replace'):
            try: res['events'].append(json.loads(l))
            except Exception: pass
    if os.path.exists(summ): res['sum'] = json.load(open(summ))
    log('symex', run['harness'], run.get('defs'), 'rc', rc, '%.1fs' % res['wall'], {k: res['sum'].get(k) for k in ('paths', 'completed', 'infeasible', 'truncated', 'errors', 'crashes', 'assertsProved', 'cands', 'unknowns', 'branchUnknown', 'solver_s')})
    return res

def native(b, run, kind='nat'):
    key = ('exe', kind, json.dumps(run.get('defs', {}), sort_keys=True), run['harness'])
    exe = os.path.join(b.work, 'replay-' + hashlib.md5(repr(key).encode()).hexdigest()[:12])
    if os.path.exists(exe): return exe
    d = defs_of(run)
    objs = [b.compile(s, kind) for s in b.srcs(run)]
    h = b.compile(os.path.join(HERE, 'harness', run['harness']), kind, d)
    rt = b.compile(os.path.join(HERE, 'harness', 'native_rt.cpp'), 'nat')
    nx = b.compile(os.path.join(HERE, 'harness', 'native_exp.cpp'), 'nat', [x for x in d if x.startswith('SCALAR=')])
    files = [h.result()] + [o.result() for o in objs] + [rt.result()]
    try: files.append(nx.result())
    except BuildError: files.append(b.compile(os.path.join(HERE, 'harness', 'native_exp.cpp'), 'nat', ['VP_PLAIN_EXP=1']).result())
    if run.get('sched') and kind != 'tsan': files.append(b.compile(os.path.join(HERE, 'harness', 'native_sched.cpp'), 'nat').result())
    if kind == 'tsan': files.append(b.compile(os.path.join(HERE, 'harness', 'native_list.cpp'), 'tsan').result())
    ld = {'asan': ['-fsanitize=address'], 'tsan': ['-fsanitize=thread']}.get(kind, [])
    tmp = exe + '.tmp%d' % threading.get_ident()
    rc, o, e = sh(['clang++'] + ld + files + ['-o', tmp, '-lpthread', '-ldl'] + run.get('libs', []))
    if rc != 0: raise BuildError('native link: ' + e[-3000:])
    os.rename(tmp, exe)
    return exe

def run_native(exe, work, model, sched, seed, mode, alarm, name, exp='fast'):
    if name == 'h_accuracy.cpp': exp = 'plain'       # there fast_exp itself is under test
    mf = os.path.join(work, 'model-%s-%d' % (name, threading.get_ident()))
    with open(mf, 'w') as f:
        for k, v in model.items(): f.write('%s %s\n' % (k.replace(' ', '_'), v))
    env = dict(os.environ, VP_EXP=exp, VP_MODEL=mf, VP_SEED=str(seed), VP_ALARM=str(alarm), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', TSAN_OPTIONS='exitcode=77:halt_on_error=1')
    env.pop('VP_RANDOM', None)
    if mode: env['VP_RANDOM'] = mode
    if sched: env['VP_SCHED'] = ','.join(map(str, sched))
    d = tempfile.mkdtemp(dir=work)
    try:
        p = subprocess.run([exe], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=alarm + 10)
        rc, err = p.returncode, p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired:
        rc, err = -14, 'timeout'
    shutil.rmtree(d, ignore_errors=True)
    return rc, err

def variants(b, run):
    """replays that differ in the exponential: of the oracle, and of the code as well"""
    yield native(b, run)
    if not any(k == 'exp' for k, _ in run.get('intercept', P.INTERCEPT)): return
    try: yield native(b, run, 'natp')
    except BuildError: pass

def violated(rc): return rc == 77 or rc < 0

def confirm(b, run, cand, tries):
    """replays a counterexample natively; returns (how, rc, stderr) or None"""
    kinds = ['nat']
    if cand.get('kind') in ('memory',): kinds = ['asan']
    if cand.get('kind') == 'race': kinds = ['tsan', 'asan'] if run.get('sched') else ['tsan']
    for kind in kinds:
        exe = native(b, run, kind)
        alarm = run.get('alarm', 20)
        ladder = [(0, '')] + [(i, 'perturb') for i in range(1, tries // 3)] + [(i, 'free') for i in range(1, tries)]
        if kind == 'tsan': ladder = [(i, '') for i in range(24)]
        n3 = 0
        for seed, mode in ladder:
            rc, err = run_native(exe, b.work, cand['model'], cand.get('sched') if kind != 'tsan' else None, seed, mode, alarm, run['harness'])
            if rc == -14 and not (cand.get('kind') in ('deadlock', 'nontermination')): continue
            if rc == 77 and kind == 'nat':       # must not depend on which exponential is used
                for v in variants(b, run):
                    if rc == 77: rc, err = run_native(v, b.work, cand['model'], cand.get('sched'), seed, mode, alarm, run['harness'], 'plain')
            if violated(rc): return {'build': kind, 'seed': seed, 'mode': mode or 'model', 'rc': rc, 'stderr': err[-1500:]}
    return None

def main():
    global VERB
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo'); ap.add_argument('--keep', action='store_true'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--only', default=''); ap.add_argument('--no-validate', action='store_true')
    a = ap.parse_args()
    VERB = a.v
    prop = P.PROPS[a.prop]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if subprocess.run([os.path.join(HERE, 'engine', 'build.sh')]).returncode != 0: print('engine build failed'); return 2
    work = tempfile.mkdtemp(prefix='vp-%s-' % a.prop)
    try: return check(a, prop, work, seed)
    except BuildError as e:
        print('BUILD FAILURE (property not analysed): ' + str(e)[:4000]); return 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)

def check(a, prop, work, seed):
    b = Builder(a.repo, work)
    runs = [r for r in prop['runs'] if a.tier == 'thorough' or r.get('tier', 'quick') == 'quick']
    if a.only: runs = [r for r in runs if re.search(a.only, r['harness'] + ' ' + json.dumps(r.get('defs', {})))]
    # start compiling everything at once
    for r in runs:
        for s in b.srcs(r): b.compile(s, 'bc', shim=True)
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    known = [k for k in known.get('known', []) if k['property'] == a.prop]
    results = []
    with cf.ThreadPoolExecutor(3 if a.tier == 'quick' else 2) as ex:
        futs = [ex.submit(symex, b, r, a.tier, i, seed) for i, r in enumerate(runs)]
        if not a.no_validate:                    # the native build overlaps with the symbolic execution
            for r in runs:
                for s in b.srcs(r): b.compile(s, 'nat')
        results = [f.result() for f in futs]
    if not a.no_validate and not any(e['ev'] == 'cand' for r in results for e in r['events']):
        with cf.ThreadPoolExecutor(NPROC) as ex: list(ex.map(lambda r: native(b, r), runs))
    # ---- counterexamples
    confirmed, knownhit, unconf = [], [], []
    tries = 60 if a.tier == 'quick' else 240
    tStart = time.time()
    for res in results:
        run = res['run']
        seen = {}
        cands = [e for e in res['events'] if e['ev'] == 'cand']
        cands.sort(key=lambda c: c.get('weak', False))
        for e in cands:
            sig = (e['kind'], e['label'])
            if seen.get(sig, 0) >= 3 or len(confirmed) >= 3: continue
            if time.time() - tStart > (240 if a.tier == 'quick' else 1500): break
            seen[sig] = seen.get(sig, 0) + 1
            kf = [k for k in known if re.search(k['harness'], run['harness']) and re.search(k['label'], e['label']) and re.search(k.get('detail', ''), e.get('detail', '') or '')]
            c = confirm(b, run, e, tries)
            log('cand', run['harness'], e['kind'], e['label'], e.get('detail'), e['model'], '->', c and (c['build'], c['mode'], c['stderr'][-200:]))
            if c:
                seen[sig] = 99
                if kf: knownhit.append((kf[0], e)); continue
                confirmed.append((run, e, c))
            else: unconf.append({'harness': run['harness'], 'kind': e['kind'], 'label': e['label'], 'detail': e.get('detail', ''), 'weak': bool(e.get('weak')), 'where': e.get('where', '')[:200], 'model': e['model']})
    # ---- witnesses: the symbolic paths are real executions
    validated, mism, samples = 0, [], []
    for res in results:
        run = res['run']
        wit = [e for e in res['events'] if e['ev'] == 'witness'][:4 if a.tier == 'quick' else 12]
        if wit and len(samples) < 6: samples.append({'harness': run['harness'], 'defs': run.get('defs', {}), 'input': wit[0]['model'], 'schedule': wit[0].get('sched', [])[:60]})
        if a.no_validate or confirmed: continue
        exe = native(b, run)
        for w in wit:
            rc, err = run_native(exe, work, w['model'], w.get('sched'), 0, '', run.get('alarm', 20), run['harness'])
            if rc == 77:
                for v in variants(b, run):
                    if rc == 77: rc, err = run_native(v, work, w['model'], w.get('sched'), 0, '', run.get('alarm', 20), run['harness'], 'plain')
            if rc == 0: validated += 1
            else: mism.append({'harness': run['harness'], 'rc': rc, 'stderr': err[-300:], 'model': w['model']}); log('witness mismatch', mism[-1])
    S = lambda k: sum(int(r['sum'].get(k, 0)) for r in results)
    labels = {}
    fns = set()
    for r in results:
        for l, s in r['sum'].get('labels', {}).items():
            t = labels.setdefault(l, {'reached': 0, 'proved': 0, 'algebra': 0, 'cand': 0, 'unknown': 0})
            for k in t: t[k] += s[k]
        fns |= set(r['sum'].get('functions', []))
    fns = sorted(f for f in fns if f.startswith('ldaplusplus::') or ' ldaplusplus::' in f.split('(')[0] or 'applications' in f or 'utils::' in f)
    errs = [dict(harness=r['run']['harness'], msg=e.get('msg'), where=e.get('where', '')[:160]) for r in results for e in r['events'] if e['ev'] == 'error']
    never = [l for l in prop.get('labels', []) if not labels.get(l, {}).get('reached')]
    cov = {
        'states': S('completed'), 'transitions': S('insts'), 'traces_validated_against_impl': validated,
        'samples': samples,
        'explanation': 'symbolic execution of the LLVM bitcode of the current sources; states = completed feasible symbolic paths, transitions = executed IR instructions; assertions decided for all values on each path by z3 or by exact rational-function normal form',
        'assertions_decided': S('assertsProved'), 'of_those_by_normal_form': S('assertsAlgebra'),
        'solver_queries': S('queries'), 'solver_sat': S('qsat'), 'solver_unsat': S('qunsat'), 'solver_unknown': S('qunknown'), 'solver_time_s': round(sum(r['sum'].get('solver_s', 0) for r in results), 3),
        'paths_infeasible': S('infeasible'), 'paths_truncated': S('truncated'), 'paths_at_depth_bound': S('bounded'), 'paths_unsupported': S('errors'), 'engine_crashes': S('crashes'), 'assertions_unknown': S('unknowns'), 'branches_unknown': S('branchUnknown'),
        'schedule_points': S('decisionsPoints'),
        'labels': labels, 'labels_never_reached': never, 'functions_encoded': fns[:400],
        'bounds': prop['bounds'], 'runs': [{'harness': r['run']['harness'], 'defs': r['run'].get('defs', {}), 'paths': r['sum'].get('completed', 0), 'wall_s': round(r['wall'], 2)} for r in results],
        'unconfirmed_candidates': unconf[:20], 'errors': errs[:20], 'witness_mismatches': mism[:10],
        'exhaustive': S('truncated') == 0 and S('errors') == 0 and S('unknowns') == 0 and S('crashes') == 0,
    }
    ev = {'property': a.prop, 'tier': a.tier, 'seed': seed, 'level': prop.get('level', 'model_checking'), 'coverage': cov, 'assumptions': prop.get('assumptions', []) + P.ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed)}
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    for k in {json.dumps(k, sort_keys=True) for k, _ in knownhit}:
        k = json.loads(k); print('KNOWN-FINDING: property=%s %s' % (a.prop, k['what']))
    if confirmed:
        run, e, c = confirmed[0]
        rp = os.path.join(HERE, 'evidence', 'replay-%s.json' % a.prop)
        with open(rp, 'w') as f:
            json.dump({'property': a.prop, 'harness': run['harness'], 'defs': run.get('defs', {}), 'assertion': e['label'], 'kind': e['kind'], 'detail': e.get('detail', ''), 'where': e.get('where', ''), 'inputs': e['model'], 'schedule': e.get('sched', []), 'native_replay': c,
                       'reproduce': 'compile harness/%s with harness/native_rt.cpp, native_exp.cpp and the library sources; run with VP_MODEL=<file of "name value" lines of inputs>' % run['harness']}, f, indent=1)
        print('assertion "%s" (%s) fails in %s %s\n  %s' % (e['label'], e['kind'], run['harness'], json.dumps(run.get('defs', {})), c['stderr'].strip().split('\n')[-1][:300] if c['stderr'].strip() else 'rc %d' % c['rc']))
        print('VIOLATION property=%s replay=%s' % (a.prop, rp))
        return 1
    print('property %s held: %d paths, %d assertions decided, %d queries, %d witnesses replayed, %d unknown, %d truncated, %d unsupported, %.1fs' % (a.prop, S('completed'), S('assertsProved'), S('queries'), validated, S('unknowns'), S('truncated'), S('errors'), time.time() - T0))
    if never: print('note: assertions never reached: %s' % never)
    if unconf: print('note: %d candidate(s) did not reproduce natively (not reported)' % len(unconf))
    for r in results:
        if r['sum'] and not r['sum'].get('completed') and not r['sum'].get('cands'): print('note: no path of %s %s was completed' % (r['run']['harness'], json.dumps(r['run'].get('defs', {}))))
    if mism: print('note: %d witness mismatch(es)' % len(mism))
    return 0

if __name__ == '__main__':
    sys.exit(main())
