#!/usr/bin/env python3
"""Write MANIFEST.json from checks.json and properties.jsonl (run by hand when either changes)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
checks = json.load(open(os.path.join(V, 'checks.json')))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
out = {
    'version': 1,
    'setup_cmd': 'python3 run.py --build',
    'checks': [],
    'not_applicable': [],
    'notes': 'No hooks in /repo: every check compiles /repo/src as it is (list of sources from src/wscript) with its own flags and links it to a harness. '
             'run.py builds and runs one check; lib/mc.cc is the explorer; replay files name the choice sequence and are replayed by run.py <id> --replay FILE.',
}
for p in props:
    i = p['id']
    if i in checks:
        c = checks[i]
        out['checks'].append({
            'property': i,
            'quick_cmd': 'python3 run.py %s' % i,
            'thorough_cmd': 'python3 run.py %s --thorough' % i,
            'evidence_file': 'evidence/%s.json' % i,
            'technique': c['technique'],
            'level': c.get('level', 'model_checking'),
            'level_note': c['note'],
        })
    else:
        out['not_applicable'].append({'property': i, 'reason': 'no check built yet'})
json.dump(out, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
