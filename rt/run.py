"""python run.py PROP --seed S --budget SECONDS --scale K --out FILE | --replay FILE"""
import argparse
import json
import os
import sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo'))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
    os.environ.setdefault(v, '1')


def main():
    a = argparse.ArgumentParser()
    a.add_argument('prop', nargs='?')
    a.add_argument('--seed', type=int, default=1)
    a.add_argument('--budget', type=float, default=10.)
    a.add_argument('--scale', type=float, default=1.)
    a.add_argument('--out')
    a.add_argument('--replay')
    a.add_argument('--only')
    o = a.parse_args()
    import base
    import sdepy
    root = os.path.realpath(os.path.dirname(os.path.dirname(sdepy.__file__)))
    assert root == os.path.realpath(os.environ.get('VERIF_REPO', '/repo')), root
    import p_process, p_sources, p_integration, p_montecarlo, p_kfunc, p_analytical, p_defaults
    if o.replay:
        d = json.load(open(o.replay))
        d = d.get('failing_input') or d
        if 'checker' not in d:
            print('the replay file holds no failing input; it names the failed obligation')
            return 2
        f = {n: f for n, f, *_ in base.CHECKS[d['property']]}[d['checker']]
        r = base.run_one(d['property'], d['checker'], f, d['seed'], d['case'])
        print(json.dumps(r, indent=1) if r else 'not reproduced')
        return 1 if r else 0
    if o.only:
        base.CHECKS[o.prop] = [x for x in base.CHECKS[o.prop] if o.only in x[0]]
    r = base.run(o.prop, o.seed, o.budget, o.scale)
    s = json.dumps(r, indent=1)
    if o.out:
        open(o.out, 'w').write(s)
    else:
        print(s)
    return 0


sys.exit(main())
