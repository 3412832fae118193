#!/usr/bin/env python3
"""write DESIGN.md: tools/design_head.md, one section per property (from props.py, the checks and the known findings), tools/design_tail.md"""
import ast, glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS
root = os.path.dirname(here)
out = [open(os.path.join(here, 'design_head.md')).read().rstrip(), '', '# The properties', '']
fixed = [l.split(' ', 3) for l in open(os.path.join(root, 'known_findings.jsonl')) if l.startswith('fixed:')]
for p in PROPS:
    pid = p['id']
    t = ast.parse(open(os.path.join(root, 'mc/checks/%s.py' % pid.lower())).read())
    out += ['## %s. %s' % (pid, p['title']), '', p['statement'], '', 'Explored: %s.' % p['text'], '']
    ass = []
    for x in t.body:
        if isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and ast.unparse(x.value.func) == 'Check':
            ass = [ast.literal_eval(e) for e in x.value.args[2].elts]
        if isinstance(x, ast.FunctionDef):
            for d in x.decorator_list:
                if 'scenario' in ast.unparse(d):
                    kw = {k.arg: ast.unparse(k.value) for k in getattr(d, 'keywords', [])}
                    b = kw.get('bound', '')
                    tier = ', thorough only' if "'quick'" not in kw.get('tiers', "'quick'") else ''
                    if b:
                        q, th = ast.literal_eval(b)
                        b = 'all combinations' if q >= 9 and th >= 9 else 'up to %s deviations, thorough %s' % (q, 'all combinations' if th >= 9 else th)
                    out.append('- `%s` (%s%s): %s' % (x.name, b or 'default bound', tier, (ast.get_docstring(x) or '').replace('\n', ' ')))
    out += ['', 'Oracle and strength: %s' % p['note'], 'Why tests do not settle it: %s' % p['why'], '']
    if ass:
        out += ['Assumptions: %s.' % '; '.join(ass), '']
    n = [f[3].strip() for f in fixed if f[1] == 'property=' + pid]
    if n:
        out += ['Defects it found, all repaired: %s.' % '; '.join(n), '']
out += ['# Planted bugs', '', 'Each is caught (exit 1) by the check of the property in its row, within the quick tier; all were planted in a scratch copy from the text of the property.', '',
        '| bug | needs | what it breaks |', '|---|---|---|']
for f in sorted(glob.glob(os.path.join(root, 'seeded/*/meta.json'))):
    m = json.load(open(f))
    out.append('| %s (%s) | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'].replace('|', '/'), m['what_it_breaks'].replace('|', '/')))
out += ['', open(os.path.join(here, 'design_tail.md')).read().rstrip(), '']
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
