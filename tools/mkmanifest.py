#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, importlib, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, R)
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
NA = {
 'C31': 'A probability bound over all efficient provers: a static argument in reach covers the structural ingredients only (C02-C05, C09-C12), not the bound.',
 'C32': 'A statement about distributions of proofs over prover randomness; the prover adds no masking, and no structural clause of the code is a necessary condition that static analysis could decide.',
 'C34': 'Time and memory depend on the machine and on runtime sizes; no static bound in reach.',
}
checks = []; na = []
TECH = {}
exec(open(os.path.join(R, 'tools', 'techniques.py')).read())
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(R, 'checks', i.lower() + '.py')) and i in TECH:
        t, level, note = TECH[i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=t, level=level, level_note=note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'Not claimed yet: its check is still being built.')))
m = dict(version=1, setup_cmd='python3 -m engine.extract', checks=checks, not_applicable=na,
         notes='All checks analyse the MIR of /repo\'s current tree, extracted by driver/main.rs (rustc_private) under cargo +nightly check; nothing of hodor is executed. No hooks in /repo.')
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'not applicable')
