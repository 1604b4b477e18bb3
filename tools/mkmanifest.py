"""writes /verif/MANIFEST.json from properties.jsonl and contracts/"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
TECH = ('contract-based deductive verification: verification conditions generated from the current source of /repo by '
        'symbolic execution of the real functions against contracts, discharged by a ring normaliser and z3')
NOTE = ('All obligations generated from the current source must be discharged, for all inputs of the stated contract '
        '(symbolic sizes, times, values; no bound); run-time contract checkers on the real code (bounded) cross-check the '
        'library contracts and look for failing inputs. Trusted: the pyvc symbolic runtime, the numpy/scipy/Generator '
        'contracts, exact real arithmetic in place of floating point.')
checks, na = [], []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    if os.path.exists(os.path.join(HERE, 'contracts', p.lower() + '.py')):
        m = importlib.import_module('contracts.' + p.lower())
        if getattr(m, 'UNCLAIMED', None):
            na.append(dict(property=p, reason=m.UNCLAIMED))
            continue
        checks.append(dict(property=p, quick_cmd='python3-vt check.py %s --tier quick' % p,
                           thorough_cmd='python3-vt check.py %s --tier thorough' % p,
                           evidence_file='evidence/%s.json' % p,
                           technique=TECH, level=getattr(m, 'LEVEL', 'proof'),
                           level_note=NOTE + (' ' + m.NOTE if getattr(m, 'NOTE', None) else '')))
    else:
        na.append(dict(property=p, reason='contracts for this property are not written yet'))
d = dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
         notes='No hooks in /repo. See DESIGN.md.')
json.dump(d, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na], 'not')
