#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (run after adding a check)."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'lib'))
sys.path.insert(0, V)
import check

TLA = 'TLA+ specification checked with TLC; its behaviours are replayed into the real code'
QNT = 'Quint specification (simulated with its invariants, ITF traces); its behaviours are replayed into the real code'
T = json.load(open(os.path.join(V, 'lib', 'manifest_notes.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in check.REGISTRY:
        n = T['notes'][i]
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + i,
                           evidence_file='evidence/%s.json' % i, technique=(QNT if n.get('quint') else TLA) + ': ' + n['spec'],
                           level=n.get('level', 'model_checking'), level_note=n['note']))
    else:
        na.append(dict(property=i, reason=T['na'].get(i, 'no check yet')))
m = dict(version=1, setup_cmd='python3 setup.py', checks=checks, not_applicable=na,
         hooks=dict(guard='verif', enable='no hook was needed: the harnesses are overlaid with go test -overlay and no file of /repo is guarded', source_commits=[]),
         notes='Checks are python3 check.py <id>, run in /verif; see DESIGN.md.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', 'not claimed:', ' '.join(x['property'] for x in na))
