#!/usr/bin/env python3
"""Writes MANIFEST.json from checks.json (technique and note of each check)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(os.path.join(V, 'checks.json')))
props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
out = {
    'version': 1,
    'setup_cmd': 'python3 run.py --tools',
    'checks': [],
    'not_applicable': [],
    'notes': 'Every check builds the sources of /repo it needs (clang++ with ASan and UBSan, g++ as a fallback) into '
             '/verif/.build; code that needs craftpp or craftnapi is compiled against the stand-ins in /verif/shim. '
             'run.py --replay FILE re-runs a saved failing case. No hooks in /repo.',
}
for p in props:
    c = checks[p]
    out['checks'].append({
        'property': p,
        'quick_cmd': 'python3 run.py %s quick' % p,
        'thorough_cmd': 'python3 run.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': c['technique'],
        'level': 'exploration',
        'level_note': c['note'],
    })
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(out, f, indent=1)
    f.write('\n')
