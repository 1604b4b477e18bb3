"""python3-vt check.py P01 [--tier quick|thorough]

Generates the verification conditions of one property from the current source of
/repo (symbolic execution of the real functions against their contracts),
discharges them, and runs the run-time contract checkers of the same property on
the real code, with real numpy: these cross-check the library contracts, stand in
(bounded) for obligations the verifier does not reach, and look for a failing
input when an obligation fails.

exit 0: every obligation discharged (or, where the verifier does not reach,
        the bounded stand-in found nothing)
exit 1: VIOLATION property=<id> replay=<path> [no-failing-input-found]
exit 2: the check itself could not run"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

if os.environ.get('PYTHONHASHSEED') != '0':
    # the same run every time
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
NPROC = int(os.environ.get('VERIF_JOBS', 0)) or max(2, min(8, os.cpu_count() or 2))


# ------------------------------------------------------------------- VC pool

def _child(conn, v):
    from pyvc import api
    try:
        conn.send(api.run_vc(v))
    except BaseException as e:
        conn.send(dict(vc=v.name, prop=v.prop, status='unsupported', info='verifier error: %r' % e, obligations=0,
                       discharged=0, failed=[], paths=0, bounded=v.bounded, names=[], backends={}, solver={},
                       functions=[], wall=0))
    conn.close()


def run_vcs(vcs, scale, deadline):
    """results in the order of vcs"""
    ctx = mp.get_context('fork')
    todo = list(enumerate(vcs))
    live, out = {}, {}
    while todo or live:
        while todo and len(live) < NPROC:
            i, v = todo.pop(0)
            v.timeout *= scale
            v.budget *= scale
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, v))
            p.start()
            b.close()
            live[i] = (p, a, time.time(), v)
        time.sleep(.01)
        for i in list(live):
            p, a, t0, v = live[i]
            r = None
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(info='the verifier process died')
            elif not p.is_alive():
                r = dict(info='the verifier process died')
            elif time.time() - t0 > v.budget + 20 or time.time() > deadline:
                r = dict(info='wall time limit')
            if r is None:
                continue
            if 'status' not in r:
                p.kill()
                r = dict(dict(vc=v.name, prop=v.prop, status='undecided', obligations=1, discharged=0, failed=[], paths=0,
                              bounded=v.bounded, names=[], backends={}, solver={}, functions=[],
                              wall=round(time.time() - t0, 2)), **r)
            p.join(5)
            if p.is_alive():
                p.kill()
                p.join()
            a.close()
            out[i] = r
            del live[i]
    return [out[i] for i in range(len(vcs))]


# ------------------------------------------------------------ runtime checkers

def rt_start(prop, seed, budget, scale, out):
    env = dict(os.environ, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE='1')
    env.pop('PYTHONPATH', None)
    return subprocess.Popen([PY, os.path.join(HERE, 'rt', 'run.py'), prop, '--seed', str(seed), '--budget', str(budget),
                             '--scale', str(scale), '--out', out], env=env, stdout=subprocess.PIPE,
                            stderr=subprocess.STDOUT, text=True)


def rt_wait(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        txt, _ = p.communicate()
        return dict(cases=0, checkers={}, failures=[], wall=limit, error='time limit')
    if p.returncode != 0:
        return dict(cases=0, checkers={}, failures=[], wall=0, error=txt[-3000:])
    r = json.load(open(out))
    os.remove(out)
    return r


# --------------------------------------------------------------------- known findings

def known():
    """known_findings.txt: 'open: property=<id> <checker or obligation> <text>'
    (a 'fixed:' entry suppresses nothing)"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(path):
        for l in open(path):
            if l.startswith('open:'):
                f = l[5:].strip().split(None, 2)
                out.append((f[0].split('=')[1], f[1], f[2] if len(f) > 2 else ''))
    return out


TRUSTED = [
    'pyvc: symbolic execution of CPython semantics (the interpreter runs the parsed text of /repo; symbolic values '
    'replace arrays and numbers), the parallel-loop rule, the term normaliser',
    'pyvc/snp.py: contracts on the numpy functions used (cross-checked by the run-time checkers on real numpy)',
    'pyvc/srandom.py: contracts on numpy.random.Generator; pyvc/sscipy.py: contracts on scipy.stats, special, '
    'integrate.quad, interpolate.interp1d and bisect',
    'machine arithmetic treated as exact: floats as real numbers, integers as unbounded',
    'z3 ' , 'ring normaliser of pyvc/prove.py (polynomial and rational identities)']


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
    ap.add_argument('--vc', default='', help='only the VCs whose name contains this (development)')
    a = ap.parse_args()
    prop, tier = a.prop.upper(), a.tier
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    quick = tier == 'quick'
    evdir = os.path.join(HERE, 'evidence')
    os.makedirs(evdir, exist_ok=True)
    tmp = lambda s: os.path.join(evdir, '.rt-%s-%s-%d.json' % (prop, s, os.getpid()))

    # run-time checkers on the real code, in parallel with the verifier
    o1 = tmp('a')
    rts = [(rt_start(prop, seed, 25 if quick else 240, 1 if quick else 20, o1), o1)]
    if not quick:
        for k in range(1, 4):
            o = tmp('t%d' % k)
            rts.append((rt_start(prop, seed + 1000*k, 240, 20, o), o))

    results, verr = [], None
    try:
        from pyvc import api, loader
        importlib.import_module('contracts.' + prop.lower())
        vcs = [v for v in api.VCS.get(prop, []) if a.vc in v.name and (v.tier == 'quick' or not quick)]
        # all VCs start from one loaded copy of the package
        try:
            loader.world()
            for m in ('infrastructure', 'integration', 'analytical', 'kfun'):
                api.mod(m)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
        results = run_vcs(vcs, 1 if quick else 4, t0 + (420 if quick else 3000))
    except ModuleNotFoundError as e:
        if 'contracts' not in str(e):
            raise
        verr = 'no contracts: %s' % e

    rt = dict(cases=0, checkers={}, failures=[], wall=0.)
    errors = []
    for p, o in rts:
        r = rt_wait(p, o, 200 if quick else 600)
        rt['cases'] += r['cases']
        rt['wall'] += r['wall']
        for k, n in r['checkers'].items():
            rt['checkers'][k] = rt['checkers'].get(k, 0) + n
        rt['failures'] += r['failures']
        if r.get('error'):
            errors.append(r['error'])

    failed = [r for r in results if r['status'] == 'failed']
    open_ = [r for r in results if r['status'] in ('unsupported', 'undecided')]

    # a failed obligation without a failing input so far: look harder on the real code
    searched = 0
    if (failed or open_ or verr) and not rt['failures']:
        ps = []
        for k in range(1, min(NPROC, 7)):
            o = tmp('s%d' % k)
            ps.append((rt_start(prop, seed + 7919*k, (45 if failed else 20) if quick else 300, 30, o), o))
        for p, o in ps:
            r = rt_wait(p, o, 120 if quick else 500)
            searched += r['cases']
            rt['failures'] += r['failures']
            if r.get('error'):
                errors.append(r['error'])

    if errors and not failed and not rt['failures']:
        # the package cannot be imported, or the harness broke: not an answer about the property
        print('ERROR: run-time checkers failed:\n%s' % errors[0])
        return 2

    # known findings
    kn = [k for k in known() if k[0] == prop]
    for f in list(rt['failures']):
        for k in kn:
            if f['checker'] == k[1]:
                rt['failures'].remove(f)
                break
    for k in kn:
        print('KNOWN-FINDING: property=%s %s %s' % k)
    kfailed = [r for r in failed if any(any(o['name'] == k[1] for k in kn) for o in r['failed'])]
    failed = [r for r in failed if r not in kfailed]

    obligations = sum(r['obligations'] for r in results if not r['bounded'])
    discharged = sum(r['discharged'] for r in results if not r['bounded'])
    # a VC which could not be generated counts as at least one obligation which is not discharged
    obligations += sum(1 for r in results if not r['bounded'] and r['status'] in ('unsupported', 'undecided')
                       and r['discharged'] == r['obligations'])
    bobl = sum(r['obligations'] for r in results if r['bounded'])
    bdis = sum(r['discharged'] for r in results if r['bounded'])
    backends, solver = {}, {}
    for r in results:
        for k, n in r['backends'].items():
            backends[k] = backends.get(k, 0) + n
        for k, (n, s) in r['solver'].items():
            x = solver.setdefault(k, [0, 0.])
            x[0] += n
            x[1] = round(x[1] + s, 3)
    functions = sorted({f for r in results for f in r['functions']})
    violations = len(failed) + len(rt['failures'])
    import z3
    trusted = [t if t != 'z3 ' else 'z3 %s' % z3.get_version_string() for t in TRUSTED]
    level = claimed_level(prop)
    assumptions = list(assumed(prop))
    if open_:
        assumptions.append('not reached by the verifier on this tree, decided by the bounded run-time checkers only: '
                           + '; '.join('%s (%s)' % (r['vc'], r['info'][:200].replace('\n', ' ')) for r in open_))
    cov = dict(
        obligations=obligations, discharged=discharged,
        checker_cmd='python3-vt check.py %s --tier %s' % (prop, tier),
        trusted_base=trusted,
        verification_conditions=[dict(vc=r['vc'], status=r['status'], obligations=r['obligations'],
                                      discharged=r['discharged'], paths=r['paths'], wall_s=r['wall'],
                                      bounded=r['bounded'], backends=r['backends']) for r in results],
        functions_under_contract=functions, backends=backends,
        solver={k: dict(calls=v[0], seconds=v[1]) for k, v in solver.items()},
        paths=sum(r['paths'] for r in results),
        bounded=dict(obligations=bobl, discharged=bdis, runtime_cases=rt['cases'], search_cases=searched,
                     runtime_checkers=rt['checkers'], runtime_s=round(rt['wall'], 2),
                     rule='cases drawn from VERIF_SEED: sizes up to 8 per axis, generic values; '
                          'never counted as proved'),
        not_reached=[dict(vc=r['vc'], status=r['status'], info=r['info'][:600]) for r in open_])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 2), violations=violations)
    if not a.vc:
        json.dump(ev, open(os.path.join(evdir, prop + '.json'), 'w'), indent=1)

    for r in results:
        print('%-12s %s.%s: %d/%d obligations, %d paths, %.1f s%s%s' % (
            r['status'], prop, r['vc'], r['discharged'], r['obligations'], r['paths'], r['wall'],
            ' (bounded: %s)' % r['bounded'] if r['bounded'] else '',
            ': ' + r['info'][-300:].replace('\n', ' ') if r['status'] in ('unsupported', 'undecided') else ''))
    print('run-time checkers: %d cases, %d failures' % (rt['cases'], len(rt['failures'])))
    if verr:
        print(verr)

    if failed or rt['failures']:
        replay = os.path.join(evdir, 'replay-%s.json' % prop)
        d = dict(property=prop, tier=tier, seed=seed,
                 replay_cmd='%s %s --replay %s' % (PY, os.path.join(HERE, 'rt', 'run.py'), replay),
                 failing_input=rt['failures'][0] if rt['failures'] else None,
                 other_failing_inputs=rt['failures'][1:4],
                 failed_obligations=[dict(vc=r['vc'], obligations=r['failed']) for r in failed],
                 runtime_cases_searched=rt['cases'] + searched)
        json.dump(d, open(replay, 'w'), indent=1, default=str)
        for r in failed:
            for o in r['failed'][:3]:
                print('FAILED OBLIGATION %s (%s): %s' % (o['name'], o['status'], (o['info'] or '')[:600]))
        for f in rt['failures'][:3]:
            print('FAILING INPUT %s case %s: %s' % (f['checker'], f['case'], f['message'][:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if rt['failures'] else ' no-failing-input-found'))
        return 1
    if not results and rt['cases'] == 0:
        print('ERROR: nothing was checked')
        return 2
    if verr or discharged == 0:
        print('ERROR: no obligation was generated' if not rt['cases'] else 'no obligation discharged: bounded check only')
        if not rt['cases']:
            return 2
    print('OK property=%s %d/%d obligations discharged, %d functions under contract, %d run-time cases' % (
        prop, discharged, obligations, len(functions), rt['cases']))
    return 0


def claimed_level(prop):
    try:
        for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']:
            if c['property'] == prop:
                return c['level']
    except (OSError, ValueError):
        pass
    return 'proof'


def assumed(prop):
    m = sys.modules.get('contracts.' + prop.lower())
    base = ['floating point rounding, overflow and underflow are not modelled in the proofs (exact real arithmetic)']
    return base + list(getattr(m, 'ASSUMPTIONS', []))


if __name__ == '__main__':
    sys.exit(main())
