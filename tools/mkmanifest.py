#!/usr/bin/env python3
# Writes MANIFEST.json from properties.jsonl and the notes below.
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
NOTE = json.load(open(os.path.join(here, 'tools', 'levels.json')))
NA = NOTE.get('_not_applicable', {})
checks = []
for p in props:
    i = p['id']
    if i in NA:
        continue
    checks.append({
        'property': i,
        'quick_cmd': './check.sh %s quick' % i,
        'thorough_cmd': './check.sh %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'deterministic simulation: seeded search over ' + ', '.join(p['quantifier']['over']).replace('_', ' ') + ' against a reference model; shrunk replay files',
        'level': 'exploration',
        'level_note': NOTE.get(i, NOTE['_default']),
    })
m = {'version': 1, 'setup_cmd': './check.sh build', 'checks': checks,
     'not_applicable': [{'property': k, 'reason': v} for k, v in sorted(NA.items())],
     'notes': 'No hooks are committed in /repo: the build overlay of check.sh adds step counters and yield points to copies of its sources. See DESIGN.md.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
