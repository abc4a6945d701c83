"""Runs the cases of one property in parallel worker processes, collects the
solver verdicts, replays counterexamples, writes the evidence file."""
import hashlib
import importlib
import json
import os
import subprocess
import sys
import tempfile
import time
import traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
PY = '/opt/venv/bin/python'
OUT = os.environ.get('VERIF_REPLAY_DIR', os.path.join(VERIF, 'replays'))


class Violation(Exception):
    """raised by a case: the solver found a counterexample.
    key: stable identification of the failing input / call site
    replay: name of a function of the check module, args: JSON-able dict"""

    def __init__(self, key, text, replay, args):
        Exception.__init__(self, text)
        self.key, self.text, self.replay, self.args_ = key, text, replay, args


class Ctx(object):
    def __init__(self, tier, seed, case):
        self.tier, self.seed, self.case = tier, seed, case
        self.functions = set()
        self.samples = []
        self.bounds = {}
        self.violations = []
        self.validated = 0
        self.paths = 0
        self.programs = 0
        self.skipped = 0
        self.obligations = []

    def fn(self, *names):
        self.functions.update(names)

    def bound(self, **k):
        self.bounds.update(k)

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(str(s)[:400])

    def obligation(self, name):
        self.obligations.append(name)

    def fail(self, key, text, replay, args):
        self.violations.append(dict(key=key, text=str(text)[:2000], replay=replay, args=args))


def base_env(hashseed):
    env = dict(os.environ)
    env.update(PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg',
               LANG='C.UTF-8', PYTHONPATH=VERIF, SYMPY_USE_CACHE='yes',
               OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    env['PYTHONPYCACHEPREFIX'] = os.path.join(tempfile.gettempdir(), 'verif_pyc_none_%d' % os.getpid())
    return env


def _assert_repo():
    import sympkf
    f = os.path.realpath(sympkf.__file__)
    if not f.startswith(REPO + '/src/sympkf/'):
        raise RuntimeError('sympkf imported from %s' % f)


def worker_main(argv):
    """python -m lib.harness worker MODULE CASE TIER SEED OUTFILE"""
    mod, idx, tier, seed, out = argv
    t0 = time.time()
    res = dict(status='error')
    try:
        import warnings
        warnings.simplefilter('ignore')
        _assert_repo()
        from lib import z3q
        m = importlib.import_module('checks.' + mod)
        cs = m.cases(tier, int(seed))
        name, fn, kw = cs[int(idx)]
        ctx = Ctx(tier, int(seed), name)
        try:
            getattr(m, fn)(ctx, **kw)
            status = 'violation' if ctx.violations else 'ok'
        except Violation as v:
            ctx.fail(v.key, v.text, v.replay, v.args_)
            status = 'violation'
        S = z3q.STATS
        res = dict(status=status, name=name, violations=ctx.violations, functions=sorted(ctx.functions),
                   samples=ctx.samples, bounds=ctx.bounds, validated=ctx.validated, paths=ctx.paths,
                   programs=ctx.programs, skipped=ctx.skipped, obligations=ctx.obligations,
                   queries=S.queries, unsat=S.unsat, sat=S.sat, unknown=S.unknown,
                   witness=S.witness, solver_s=S.time)
    except Exception as err:
        res['error'] = traceback.format_exc()[-4000:]
        where = raised_in_repo(m, err)
        if where:
            text = '%s: %s raises %r' % (name, where, err)
            ctx.fail('raises/' + name, text, '_case', dict(index=int(idx), tier=tier, seed=int(seed)))
            res.update(status='violation', name=name, violations=ctx.violations)
    res['wall_s'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)


def raised_in_repo(m, err):
    """function of sympkf from which err comes, for the checks that only give sympkf genuine sympy
    objects (module attribute PLAIN_INPUTS): every case of these is an input sympkf must accept.
    '' when the exception comes from the check itself, or from a symbolic object met by sympkf"""
    if not getattr(m, 'PLAIN_INPUTS', False) or isinstance(err, MemoryError):
        return ''
    where = ''
    for f in traceback.extract_tb(err.__traceback__):
        if f.filename.startswith(VERIF + '/'):
            where = ''
        elif f.filename.startswith(REPO + '/src/sympkf/'):
            where = f.name
    return where


def replay_case(m, index, tier, seed):
    name, fn, kw = m.cases(tier, seed)[index]
    try:
        getattr(m, fn)(Ctx(tier, seed, name), **kw)
    except Violation:
        pass
    except Exception as err:
        where = raised_in_repo(m, err)
        if where:
            return True, '%s: %s raises %r' % (name, where, err)
        raise
    return False, '%s: nothing raised' % name


def replay_main(argv):
    """python -m lib.harness replay FILE  (exit 1: reproduced, 0: not)"""
    import warnings
    warnings.simplefilter('ignore')
    _assert_repo()
    data = json.load(open(argv[0]))
    m = importlib.import_module('checks.' + data['module'])
    if data['replay'] == '_case':
        ok, text = replay_case(m, **data['args'])
    else:
        ok, text = getattr(m, data['replay'])(**data['args'])
    print(('REPRODUCED: ' if ok else 'NOT REPRODUCED: ') + str(text)[:4000])
    return 1 if ok else 0


def run(mod, tier, seed):
    t0 = time.time()
    m = importlib.import_module('checks.' + mod)
    pid = m.PROPERTY
    cases = m.cases(tier, seed)
    only = os.environ.get('VERIF_CASE')
    tmp = tempfile.mkdtemp(prefix='verif_')
    limit = getattr(m, 'CASE_TIMEOUT', {'quick': 600, 'thorough': 3000})[tier]
    nproc = int(os.environ.get('VERIF_JOBS', '8'))

    failfast = bool(os.environ.get('VERIF_FAILFAST'))      # development: stop at the first violation
    seen = []

    def one(i):
        # the quick tier answers within its budget even when a change makes cases hang
        left = 1e9 if tier != 'quick' else (520 if seen else 720) - (time.time() - t0)
        if failfast and seen or left < 1:
            return dict(status='unrun' if seen else 'error', error='no time left', name=cases[i][0], wall_s=0)
        out = os.path.join(tmp, '%d.json' % i)
        hs = (seed * 1000003 + i * 7919) % 4294967295
        cmd = [PY, '-W', 'ignore', '-m', 'lib.harness', 'worker', mod, str(i), tier, str(seed), out]
        try:
            p = subprocess.run(cmd, cwd=tmp, env=base_env(hs), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=min(limit, left))
            log = p.stdout.decode(errors='replace')[-3000:]
        except subprocess.TimeoutExpired:
            return dict(status='error', error='case timeout after %ds' % min(limit, left), name=cases[i][0],
                        wall_s=min(limit, left))
        try:
            r = json.load(open(out))
        except Exception:
            r = dict(status='error', error='worker died: ' + log)
        r.setdefault('name', cases[i][0])
        r['hashseed'] = hs
        if r.get('violations'):
            seen.append(i)
        return r

    idx = [i for i in range(len(cases)) if not only or only in cases[i][0]]
    weight = getattr(m, 'weight', lambda name: 0)
    idx.sort(key=lambda i: -weight(cases[i][0]))
    with ThreadPoolExecutor(nproc) as ex:
        results = list(ex.map(one, idx))

    known = load_known(pid)
    viol, errors, knownhits = [], [], set()
    for r in results:
        if r['status'] == 'error':
            errors.append(r)
        for v in r.get('violations', []):
            v['case'] = r['name']
            v['hashseed'] = r['hashseed']
            k = match_known(known, v)
            if k is not None:
                knownhits.add(k)
                continue
            viol.append(v)
    cost = {r['name']: r['wall_s'] for r in results}
    viol.sort(key=lambda v: cost[v['case']])
    reported, unrepro = [], []
    os.makedirs(OUT, exist_ok=True)
    for n, v in enumerate(viol):
        if len(reported) >= 3 or (reported and time.time() - t0 > 500) or time.time() - t0 > (750 if tier == 'quick' else 1e9):
            break
        h = hashlib.sha1((v['key'] + json.dumps(v['args'], sort_keys=True)).encode()).hexdigest()[:10]
        path = os.path.join(OUT, '%s-%s.json' % (pid, h))
        with open(path, 'w') as f:
            json.dump(dict(property=pid, module=mod, key=v['key'], case=v['case'], text=v['text'],
                           replay=v['replay'], args=v['args'], hashseed=v['hashseed'],
                           how='cd /verif && ./replay %s' % path), f, indent=1)
        try:
            p = subprocess.run([PY, '-W', 'ignore', '-m', 'lib.harness', 'replay', path], cwd=tmp,
                               env=base_env(v['hashseed']), stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, timeout=300)
            rc, log = p.returncode, p.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            rc, log = 99, 'replay timeout'
        v['replay_log'] = log[-1500:]
        if rc == 1 and 'REPRODUCED' in log:
            reported.append((v, path))
        else:
            unrepro.append(v)
    for k in known:
        print('KNOWN-FINDING: property=%s %s%s' % (pid, k['text'], '' if id(k) in knownhits else ' [not met in this run]'))
    for v, path in reported:
        print('  case %s: %s' % (v['case'], v['text'][:600]))
        print('  ' + v['replay_log'].strip()[:600].replace('\n', '\n  '))
        print('VIOLATION property=%s replay=%s' % (pid, path))
    for v in unrepro:
        print('ERROR %s case %s: counterexample did not reproduce: %s\n%s' % (pid, v['case'], v['text'][:500], v['replay_log'][-800:]))
    for r in errors:
        print('ERROR %s case %s: %s' % (pid, r.get('name'), r.get('error')))
    write_evidence(m, pid, tier, seed, results, len(reported), time.time() - t0)
    _rm(tmp)
    tot = sum(r.get('queries', 0) for r in results)
    print('%s %s: %d cases, %d queries (%d unsat), %.1fs solver, %.1fs wall, %d violations, %d errors' % (
        pid, tier, len(results), tot, sum(r.get('unsat', 0) for r in results),
        sum(r.get('solver_s', 0) for r in results), time.time() - t0, len(reported), len(errors) + len(unrepro)))
    if os.environ.get('VERIF_VERBOSE'):
        for r in results:
            print('   ', r['name'], r['status'], '%.1fs' % r['wall_s'], 'q=%s' % r.get('queries'))
    if reported:
        return 1
    if errors or unrepro or tot == 0:
        return 2
    return 0


def _rm(d):
    import shutil
    shutil.rmtree(d, ignore_errors=True)


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['known'] if k['property'] == pid]


def match_known(known, v):
    for k in known:
        if k['key'] == v['key']:
            return id(k)
    return None


def write_evidence(m, pid, tier, seed, results, nviol, wall):
    fns, bounds, samples, obl = set(), {}, [], 0
    for r in results:
        fns.update(r.get('functions', []))
        for k, b in r.get('bounds', {}).items():
            bounds.setdefault(k, [])
            if b not in bounds[k]:
                bounds[k].append(b)
        if len(samples) < 6:
            samples.extend('[%s] %s' % (r['name'], s) for s in r.get('samples', [])[:1])
        obl += len(r.get('obligations', []))
    q = lambda k: sum(r.get(k, 0) for r in results)
    cov = dict(
        explanation=m.EXPLANATION,
        functions_encoded=sorted(fns),
        bounds=bounds,
        cases=len(results),
        obligations_stated=obl,
        queries=q('queries'), queries_unsat=q('unsat'), queries_sat=q('sat'), queries_unknown=q('unknown'),
        vacuity_witnesses=q('witness'),
        solver_s=round(q('solver_s'), 3),
        not_encodable_skipped=q('skipped'),
        symbolic_paths=q('paths'),
        encoding_runs_cross_validated=q('validated'),
        outside_the_claim=getattr(m, 'OUTSIDE', ''),
        samples=samples or ['none'],
    )
    if m.LEVEL == 'translation_validation':
        cov['programs'] = q('programs')
        cov['disagreements_checked'] = q('unsat') + q('sat') - q('witness')
    if m.LEVEL == 'exploration':
        cov['evaluations'] = q('paths') or q('queries')
        cov['distinct_nontrivial'] = q('paths') or q('queries')
        cov['rule'] = m.EXPLANATION
    ev = dict(property=pid, tier=tier, seed=seed, level=m.LEVEL, coverage=cov,
              assumptions=getattr(m, 'ASSUMPTIONS', []), wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def main():
    a = sys.argv[1:]
    if a[0] == 'worker':
        worker_main(a[1:])
        return 0
    if a[0] == 'replay':
        return replay_main(a[1:])
    if a[0] == 'run':
        pid = a[1]
        tier = a[2] if len(a) > 2 else os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        return run(pid.lower(), tier, seed)
    raise SystemExit('usage')


if __name__ == '__main__':
    from lib import harness          # one instance of the module (and of Violation)
    sys.exit(harness.main())
