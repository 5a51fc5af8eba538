#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table in tools/props.py.
A property is claimed when harness/<id>/ exists."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
from props import PROPS, NA
with open(root + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        d = {k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}
        assert len(d['title']) <= 80, d['title']
        f.write(json.dumps(d) + '\n')
checks = []; na = []
for p in PROPS:
    i = p['id']
    if os.path.isdir('%s/harness/%s' % (root, i)) and i not in NA:
        checks.append({'property': i, 'quick_cmd': './check %s --tier quick' % i, 'thorough_cmd': './check %s --tier thorough' % i,
                       'technique': 'contract-based deductive verification: contracts on the real functions, verification conditions generated from the LLVM IR of /repo\'s sources on every run, discharged by z3 (cvc5 second)',
                       'level': 'proof', 'level_note': p['note']})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'check not built yet')})
json.dump({'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Two or more "fix:" commits repair genuine defects; see known_findings.txt and DESIGN.md.'},
          open(root + '/MANIFEST.json', 'w'), indent=1)
