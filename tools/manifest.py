#!/usr/bin/env python3
"""Regenerates MANIFEST.json from levels.json, na.json and properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
lv = json.load(open(ROOT + '/tools/levels.json'))
na = json.load(open(ROOT + '/tools/na.json'))
ids = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
TECH = 'contract-based deductive verification of the real Go code (govc: obligations from the SSA of /repo, discharged by z3 and cvc5), counterexamples searched by replay against the real code'
TRUST = ' Trusted: the verifier govc and its SSA front end, z3/cvc5, the assumed contracts on standard-library calls listed in the evidence, no data races, no running out of memory.'
checks = []
for i in ids:
    if i in lv:
        c = lv[i]
        checks.append({'property': i, 'quick_cmd': 'python3 tools/check.py %s --tier quick' % i, 'thorough_cmd': 'python3 tools/check.py %s --tier thorough' % i,
                       'technique': c.get('technique', TECH), 'level': c['level'], 'level_note': c['note'] + TRUST})
m = {'version': 1, 'setup_cmd': 'bash tools/build.sh', 'checks': checks,
     'not_applicable': [{'property': i, 'reason': na[i]} for i in ids if i not in lv]}
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
