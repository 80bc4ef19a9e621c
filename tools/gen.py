#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import P

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as fh:
    for p in P:
        fh.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='python3 -m compileall -q sa >/dev/null 2>&1 || true',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                      thorough_cmd='python3 check.py %s --thorough' % p['id'],
                      evidence_file='evidence/%s.json' % p['id'],
                      technique=p['technique'], level=p['level'], level_note=p['note'])
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
for p in P:
    assert len(p['title']) <= 80, p['title']
