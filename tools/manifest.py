#!/usr/bin/env python3
"""Write MANIFEST.json from the rules of kvet and tools/not_applicable.json."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
kvet = os.environ.get('KVET', os.path.join(here, '.bin', 'kvet'))
na = json.load(open(os.path.join(here, 'tools', 'not_applicable.json')))
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
out = subprocess.run([kvet, 'list'], capture_output=True, text=True, check=True).stdout
checks = []
have = set()
for l in out.splitlines():
    i, tech, about = l.split('\t')
    have.add(i)
    checks.append({
        'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
        'evidence_file': f'evidence/{i}.json', 'technique': 'static analysis: ' + tech,
        'level': 'other', 'level_note': about})
nas = [{'property': p['id'], 'reason': na.get(p['id'], 'no sound static rule has been built for it')} for p in props if p['id'] not in have]
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': nas,
     'notes': 'All checks are one static analyser (kvet, Go, vendored x/tools) that type-checks /repo, builds SSA and decides the rules of DESIGN.md; it never runs the code of /repo.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
