#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from tools/props.py"""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']], observe_at=p['observe'], hook_needed=None))) + '\n')
checks = [dict(property=p['id'], quick_cmd='./check.sh %s --tier quick' % p['id'], thorough_cmd='./check.sh %s --tier thorough' % p['id'],
               evidence_file='evidence/%s.json' % p['id'],
               technique='explicit-state model checking: exhaustive bounded exploration of the real code against a reference model',
               level='model_checking', level_note=p['note'])
          for p in PROPS if os.path.exists(os.path.join(root, 'mc/checks/%s.py' % p['id'].lower()))]
m = dict(version=1, setup_cmd='/opt/venv/bin/python -c "import numpy, gdal, pyproj"', checks=checks, not_applicable=[],
         notes='No hooks in /repo: every check drives the unmodified code of /repo. See DESIGN.md.')
with open(os.path.join(root, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(PROPS), 'properties', len(checks), 'checks')
