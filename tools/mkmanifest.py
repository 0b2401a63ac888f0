#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the list of claimed properties."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIM = json.load(open(os.path.join(V, 'tools', 'claims.json')))
TECH = ('contract-based deductive verification of the compiled-from-source LLVM IR of the real crates: requires/ensures contracts on '
        'every public operation, discharged for all inputs by symbolic execution, term normalisation and z3')
checks, na = [], []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)
    c = CLAIM.get(p['id'])
    if not c or c.get('na'):
        na.append(dict(property=p['id'], reason=(c or {}).get('na', 'check under construction')))
        continue
    checks.append(dict(property=p['id'],
                       quick_cmd='VERIF_TIER=quick python3-vt checks/run.py %s' % p['id'],
                       thorough_cmd='VERIF_TIER=thorough python3-vt checks/run.py %s' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'],
                       technique=c.get('technique', TECH), level='proof', level_note=c['note']))
m = dict(version=1, setup_cmd='python3-vt checks/setup.py', checks=checks, not_applicable=na,
         hooks=dict(guard='none', enable='the checks use the public API only; the harness crates in /verif/harness depend on /repo by path', source_commits=[]),
         notes='See DESIGN.md. Known and repaired defects: known_findings.json.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
