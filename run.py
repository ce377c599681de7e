#!/opt/venv/bin/python
"""run.py check Cxx            decide one property (VERIF_TIER quick|thorough)
run.py replay FILE          replay a recorded counterexample against a fresh build of /repo
run.py selftest Cxx         run the harness concretely against a fresh build (development aid)
run.py case Cxx I           symbolic run of one case in-process (development aid)
run.py setup                check that the tool chain works
"""
import fcntl
import json
import os
import pickle
import re
import resource
import select
import shutil
import signal
import subprocess
import sys
import time
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault('OMP_NUM_THREADS', '1')
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1'))
NPROC = int(os.environ.get('VERIF_JOBS', '8'))
PY = '/opt/venv/bin/python'


def known_findings(pid):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [f for f in json.load(open(p))['findings'] if f['property'] == pid and f.get('status') != 'fixed']


def casekey(case):
    return ' '.join('%s=%s' % (k, json.dumps(case[k], sort_keys=True)) for k in sorted(case))


# ---------------------------------------------------------------- parallel symbolic cases
def run_cases(pid, cases, tier, deadline, case_timeout):
    from engine import core
    pend = list(enumerate(cases))
    live = {}
    results = [None] * len(cases)
    while pend or live:
        while pend and len(live) < NPROC:
            i, c = pend.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(r)
                try:
                    lim = 6 << 30
                    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
                    res = core.run_case(pid, c, tier)
                    data = pickle.dumps(res)
                except BaseException as e:
                    data = pickle.dumps({'case': c, 'fatal': '%s: %s' % (type(e).__name__, str(e)[:300])})
                with os.fdopen(w, 'wb') as f:
                    f.write(data)
                os._exit(0)
            os.close(w)
            live[r] = (pid_, i, time.time(), [])
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for r in rd:
            chunk = os.read(r, 1 << 20)
            if chunk:
                live[r][3].append(chunk)
                continue
            pid_, i, t, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid_, 0)
            try:
                results[i] = pickle.loads(b''.join(buf))
            except Exception:
                results[i] = {'case': cases[i], 'fatal': 'case process died'}
        now = time.time()
        for r in list(live):
            pid_, i, t, buf = live[r]
            if now - t > case_timeout or now > deadline:
                os.kill(pid_, signal.SIGKILL)
                os.waitpid(pid_, 0)
                os.close(r)
                del live[r]
                results[i] = {'case': cases[i], 'fatal': 'time limit'}
        if now > deadline:
            for i, c in pend:
                results[i] = {'case': c, 'fatal': 'time limit (not started)'}
            pend = []
    return results


# ---------------------------------------------------------------- concrete replays
def concrete_child(jobfile):
    """argv: _concrete JOBFILE (cwd: anything; PYTHONPATH puts the scratch build first)"""
    job = json.load(open(jobfile))
    from engine import core, world
    P = core.load_prop(job['property'])
    import qmeq
    if job.get('root'):
        assert os.path.realpath(qmeq.__file__).startswith(os.path.realpath(job['root'])), qmeq.__file__
    W = world.RealWorld()
    out = []
    hook = []
    # determine_pointer_* only takes an address (&a[0, 0] of an empty array is never followed)
    sys.unraisablehook = lambda u: 'determine_pointer' in str(u.object) or hook.append(
        '%s: %s' % (type(u.exc_value).__name__, u.exc_value))
    real_stdout = os.dup(1)
    dn = os.open('/dev/null', os.O_WRONLY)
    os.dup2(dn, 1)
    for j in job['runs']:
        del hook[:]
        V, skipped = core.run_concrete(P, W, job['case'], j['model'], j['variant'])
        viol = list(V.violated)
        if hook and not skipped:
            viol.append(['no-unraisable', hook[0]])
        out.append({'variant': j['variant'], 'model': j['model'], 'violated': [list(map(str, v)) for v in viol][:30],
                    'nviol': len(viol), 'claims': len(V.claims), 'skipped': skipped, 'values': V.values,
                    'tb': getattr(V, 'tb', None)})
        if job.get('stop') and any(not k for k in [job_known(job, v[0]) for v in viol]):
            break
    sys.stdout.flush()
    os.dup2(real_stdout, 1)
    json.dump(out, open(job['out'], 'w'))
    os._exit(0)


def job_known(job, claim):
    return any(re.search(k, claim) for k in job.get('known', ()))


def concrete(root, pid, case, runs, tmp, timeout=240, known=(), stop=True, memcheck=False):
    k = len(os.listdir(tmp))
    jf, of = os.path.join(tmp, 'job%d.json' % k), os.path.join(tmp, 'out%d.json' % k)
    json.dump({'property': pid, 'case': case, 'runs': runs, 'out': of, 'root': root, 'known': list(known),
               'stop': stop}, open(jf, 'w'))
    threads = case.get('nt') or getattr(__import__('engine.core').core.load_prop(pid), 'THREADS', 1)
    env = dict(os.environ, PYTHONPATH=root, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS=str(threads))
    pre = []
    if memcheck:
        # memory from malloc has no bounds checks in any build: look at the accesses themselves
        env['PYTHONMALLOC'] = 'malloc'
        pre = ['valgrind', '-q', '--error-limit=no', '--undef-value-errors=no', '--log-file='+of+'.vg']
    try:
        p = subprocess.run(pre+[PY, os.path.join(HERE, 'run.py'), '_concrete', jf], env=env, cwd=tmp,
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return [{'variant': -1, 'model': {}, 'violated': [], 'nviol': 0, 'error': 'timeout'}]
    bad = vgerrors(of+'.vg', root) if memcheck else None
    if bad:
        return [{'variant': 0, 'model': runs[0]['model'], 'nviol': 1, 'claims': 1, 'memcheck': True,
                 'violated': [['no access outside allocated memory', bad]]}]
    if os.path.exists(of):
        return json.load(open(of))
    if p.returncode < 0:
        return [{'variant': -1, 'model': runs[0]['model'], 'nviol': 1, 'claims': 0,
                 'violated': [['no-crash', 'killed by signal %d' % -p.returncode]]}]
    return [{'variant': -1, 'model': {}, 'violated': [], 'nviol': 0, 'error': (p.stderr or '')[-1500:]}]


def vgerrors(log, root):
    """first invalid access below a routine of the tree under test"""
    if not os.path.exists(log):
        return None
    for blk in re.split(r'(?m)^==\d+== *$', open(log).read()):
        if 'Invalid write' in blk or 'Invalid read' in blk:
            if root in blk:
                return ' / '.join(x.split('== ')[-1].strip() for x in blk.strip().splitlines()[:3])
    return None


def mkruns(models, nvar=6):
    runs = [{'model': m, 'variant': i} for i, m in enumerate(models[:4])]
    runs += [{'model': {}, 'variant': i} for i in range(nvar)]
    return runs


def check(pid):
    t0 = time.time()
    from engine import core, build
    P = core.load_prop(pid)
    budget = float(os.environ.get('VERIF_BUDGET', '840' if TIER == 'quick' else '14000'))
    deadline = t0 + budget - 150
    cases = P.cases(TIER)
    case_timeout = getattr(P, 'CASE_TIMEOUT', 400 if TIER == 'quick' else 6000)
    # biggest first when the property says so
    if hasattr(P, 'weight'):
        cases = sorted(cases, key=lambda c: -P.weight(c))
    results = run_cases(pid, cases, TIER, deadline, case_timeout)

    kf = known_findings(pid)
    cand, incon = [], []
    for r in results:
        if 'fatal' in r:
            incon.append((r['case'], r['fatal']))
            continue
        if r['cands']:
            cand.append(r)
        elif r['incon']:
            incon.append((r['case'], r['incon'][0]))
        if r['paths'] and not r['witness_sat'] and not r['cands'] and not r['incon']:
            incon.append((r['case'], 'vacuous: no path with a satisfiable path condition'))
        if not r['claims'] and not r['cands'] and not r['incon']:
            incon.append((r['case'], 'vacuous: the harness made no claim'))

    violations, knowns, spurious = [], [], []
    if cand or incon:
        tmp = None
        root = rootb = None
        try:
            import tempfile
            tmp = tempfile.mkdtemp(prefix='verif-replay-')
            try:
                root = build.scratch_build()
            except RuntimeError as e:
                print('cannot build the tree under test for replay: %s' % str(e)[:1500])
                root = None
            if root:
                order = spread(sorted(cand, key=lambda r: len(r['cands'])))
                todo = [(r['case'], r['cands']) for r in order[:36]] + [(c, []) for c, _ in incon[:12]]
                for case, cs in todo:
                    if time.time() > t0 + budget - 20 or len(violations) >= 3:
                        break
                    ck = casekey(case)
                    known = [f for f in kf if re.search(f['case'], ck)]
                    kpat = [f['claim'] for f in known]
                    unk = [c for c in cs if not any(re.search(k, c['claim']) for k in kpat)]
                    use = unk or cs
                    models = []
                    for c in use:
                        m = core.clean_model(c['model'])
                        if m not in models:
                            models.append(m)
                    bnd = any(c['kind'] == 'OutOfBounds' for c in cs)
                    rt = root
                    if bnd:
                        if rootb is None:
                            rootb = build.scratch_build(boundscheck=True)
                        rt = rootb
                    outs = concrete(rt, pid, case, mkruns(models), tmp, known=kpat, stop=bool(unk) or not cs)
                    vg = [c for c in cs if c['kind'] == 'OutOfBounds' and 'elements needed' in c['info']]
                    if vg and not any(o['violated'] for o in outs):
                        outs = concrete(root, pid, case, mkruns(models)[:1], tmp, memcheck=True) or outs
                    hit_unknown, hit_known = None, set()
                    for o in outs:
                        for v in o['violated']:
                            ks = [f for f in known if re.search(f['claim'], v[0])]
                            if ks:
                                hit_known.update(f['id'] for f in ks)
                            elif hit_unknown is None:
                                hit_unknown = (o, v)
                    for kid in hit_known:
                        if kid not in knowns:
                            knowns.append(kid)
                    if hit_unknown:
                        o, v = hit_unknown
                        rp = save_replay(pid, case, o, v, bnd, cs)
                        violations.append((rp, case, v))
                    elif unk:
                        spurious.append((case, unk[0]['claim'], unk[0]['kind'], unk[0]['info'],
                                         outs[0].get('error', '')))
                    elif cs and not hit_known:
                        spurious.append((case, cs[0]['claim'], cs[0]['kind'], 'listed finding did not replay', ''))
        finally:
            for d in (tmp, root, rootb):
                if d and d.startswith('/tmp/verif-'):
                    shutil.rmtree(d, ignore_errors=True)

    write_evidence(pid, P, cases, results, violations, knowns, incon, spurious, time.time() - t0)
    byid = {f['id']: f for f in kf}
    for k in knowns:
        print('KNOWN-FINDING: property=%s %s' % (pid, byid[k]['what']))
    for f in kf:
        if f['id'] not in knowns:
            print('note: listed finding %s was not met in this run' % f['id'])
    for rp, case, v in violations:
        print('violated: %s (%s) in case %s' % (v[0], v[1][:300], casekey(case)))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
    for case, why in incon[:10]:
        print('inconclusive: %s: %s' % (casekey(case), why))
    for s in spurious[:10]:
        print('counterexample did not reproduce: %s claim=%s kind=%s %s %s' % (casekey(s[0]), s[1], s[2], s[3], s[4]))
    if violations:
        return 1
    if incon or spurious:
        return 2
    n = sum(r['claims'] for r in results)
    print('OK property=%s cases=%d claims=%d discharged=%d solver=%.1fs wall=%.1fs' % (
        pid, len(cases), n, sum(r['discharged'] for r in results), sum(r['stats']['solver_s'] for r in results),
        time.time() - t0))
    return 0


def spread(rs):
    """one case of every kind first"""
    seen = {}
    out = []
    for i, r in enumerate(rs):
        c = r['case']
        k = tuple(str(c.get(x)) for x in ('what', 'how', 'fail', 'weak', 'seq', 'h', 'op'))
        seen[k] = seen.get(k, 0)+1
        out.append((seen[k], i, r))
    return [r for _, _, r in sorted(out, key=lambda t: t[:2])]


def save_replay(pid, case, o, v, bnd, cs):
    d = os.path.join(HERE, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    n = 0
    while os.path.exists(os.path.join(d, '%s-%d.json' % (pid, n))):
        n += 1
    p = os.path.join(d, '%s-%d.json' % (pid, n))
    json.dump({'property': pid, 'case': case, 'model': o['model'], 'variant': o['variant'], 'values': o.get('values'),
               'violated': v, 'boundscheck': bnd, 'memcheck': bool(o.get('memcheck')), 'traceback': o.get('tb'),
               'solver_claims': [(c['claim'], c['kind'], c['info']) for c in cs[:20]],
               'how': 'run.py replay %s' % p}, open(p, 'w'), indent=1)
    return p


def replay(path):
    from engine import build
    import tempfile
    j = json.load(open(path))
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    root = build.scratch_build(boundscheck=bool(j.get('boundscheck')))
    try:
        o = concrete(root, j['property'], j['case'], [{'model': j['model'], 'variant': j['variant']}], tmp, memcheck=bool(j.get('memcheck')))
    finally:
        for d in (tmp, root):
            shutil.rmtree(d, ignore_errors=True)
    print(json.dumps(o, indent=1)[:6000])
    return 1 if o[0]['nviol'] else 0


def selftest(pid, sel=None, nvar=2):
    from engine import core, build
    import tempfile
    P = core.load_prop(pid)
    cases = P.cases(TIER)
    if sel is not None:
        cases = [cases[int(sel)]]
    tmp = tempfile.mkdtemp(prefix='verif-replay-')
    root = os.environ.get('VERIF_ROOT') or build.scratch_build()
    bad = 0
    try:
        for c in cases:
            o = concrete(root, pid, c, [{'model': {}, 'variant': i} for i in range(nvar)], tmp, stop=False)
            nv = sum(x['nviol'] for x in o)
            err = [x['error'] for x in o if x.get('error')]
            if nv or err or all(x.get('skipped') for x in o):
                bad += 1
                print('BAD', casekey(c), nv, [x['violated'][:3] for x in o], err[:1], [x.get('skipped') for x in o])
                for x in o:
                    if x.get('tb'):
                        print(x['tb'][-1500:])
                        break
            else:
                print('ok ', casekey(c), [x['claims'] for x in o])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        if not os.environ.get('VERIF_ROOT'):
            shutil.rmtree(root, ignore_errors=True)
    return bad


def write_evidence(pid, P, cases, results, violations, knowns, incon, spurious, wall):
    good = [r for r in results if 'fatal' not in r]
    fns = sorted({f for r in good for f in r['functions']})
    st = lambda k: sum(r['stats'][k] for r in good)
    samples = []
    for r in good[:: max(1, len(good) // 5)][:6]:
        samples.append({'case': r['case'], 'paths': r['paths'], 'claims': r['claims'],
                        'claim_names': r['claim_samples'], 'witness': r['sample_model']})
    ev = {
        'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'other',
        'coverage': {
            'explanation': 'Symbolic execution of the current sources of /repo (Python executed as is, .pyx translated '
                           'from the Cython parser tree) on solver variables; every claim is an obligation decided by '
                           'z3 for all values within the stated bounds. ' + getattr(P, 'EXPLAIN', ''),
            'bounds': P.BOUNDS,
            'outside': getattr(P, 'OUTSIDE', ''),
            'cases': len(cases),
            'paths': sum(r['paths'] for r in good),
            'obligations': sum(r['claims'] for r in good),
            'discharged': sum(r['discharged'] for r in good),
            'inconclusive': len(incon), 'unreproduced': len(spurious),
            'solver_queries': st('queries'), 'solver_unsat': st('unsat'), 'solver_sat': st('sat'),
            'solver_unknown': st('unknown'), 'branch_feasibility_queries': st('branch'),
            'solver_s': round(st('solver_s'), 3),
            'vacuity_witnesses_sat': sum(r['witness_sat'] for r in good),
            'vacuity_witnesses_unknown': sum(r['witness_unknown'] for r in good),
            'paths_infeasible': sum(r['witness_unsat'] for r in good),
            'functions_encoded': fns,
            'samples': samples,
            'known_findings_met': knowns,
        },
        'assumptions': list(P.ASSUMPTIONS),
        'wall_s': round(wall, 2),
        'violations': len(violations),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1, default=str)


def main():
    a = sys.argv[1:]
    if a[0] == 'check':
        return check(a[1])
    if a[0] == '_concrete':
        return concrete_child(a[1])
    if a[0] == 'replay':
        return replay(a[1])
    if a[0] == 'selftest':
        return selftest(a[1], a[2] if len(a) > 2 else None)
    if a[0] == 'case':
        from engine import core
        P = core.load_prop(a[1])
        cs = P.cases(TIER)
        for i in ([int(a[2])] if len(a) > 2 else range(len(cs))):
            r = core.run_case(a[1], cs[i], TIER)
            print(i, casekey(cs[i]), 'paths', r['paths'], 'claims', r['claims'], 'disch', r['discharged'],
                  'cands', [(c['claim'], c['kind'], c['info'][:200]) for c in r['cands'][:4]], len(r['cands']),
                  'incon', r['incon'][:3], 'wit', r['witness_sat'], r['witness_unsat'], r['witness_unknown'],
                  '%.1fs' % r['wall'])
            for c in r['cands'][:1]:
                if c.get('tb'):
                    print(c['tb'])
            if r.get('tb'):
                print(r['tb'])
        return 0
    if a[0] == 'setup':
        from engine import core
        import Cython
        core.sym.z3.get_version()
        print('z3', core.sym.z3.get_version_string(), 'Cython', Cython.__version__)
        return 0
    print(__doc__)
    return 2


if __name__ == '__main__':
    sys.exit(main())
