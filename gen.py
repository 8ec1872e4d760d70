#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from sa/registry.py."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'sa'))
import registry as R
props, checks, na = [], [], []
for i, p in sorted(R.PROPS.items()):
    assert len(p['title']) <= 80, (i, len(p['title']))
    props.append({'id': i, 'title': p['title'], 'statement': p['statement'], 'quantifier': {'over': p['over'], 'text': p['text']},
                  'why_tests_cant': p['why'], 'anchors': {'files': p['files'], 'mechanism': p['mechanism']}})
    if p['na']:
        na.append({'property': i, 'reason': p['na']}); continue
    checks.append({'property': i, 'quick_cmd': f'python3 check.py {i}', 'thorough_cmd': f'python3 check.py {i} thorough',
                   'technique': p['tech'], 'level': p['level'], 'level_note': p['note']})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in props: f.write(json.dumps(p) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'Static analysis only: no check runs code of the repository. See DESIGN.md.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
print(len(props), 'properties,', len(checks), 'checks')
