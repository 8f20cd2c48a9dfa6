"""Writes MANIFEST.json from the plan."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'gv'))
import plan
from notes import NOTES, NA
ids = [json.loads(l)['id'] for l in open(os.path.join(H, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in plan.PLAN:
        checks.append(dict(property=i, quick_cmd='python3-vt check.py %s quick' % i,
                           thorough_cmd='python3-vt check.py %s thorough' % i,
                           technique='contract-based deductive verification: weakest-precondition style obligations from the '
                                     "tree's SSA form, discharged by z3/cvc5",
                           level=plan.PLAN[i].get('level', 'proof'), level_note=NOTES[i]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'not built yet')))
json.dump(dict(version=1, setup_cmd='python3-vt setup.py', checks=checks, not_applicable=na),
          open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
