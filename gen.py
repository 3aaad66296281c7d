#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from spec.py and props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, H)
from spec import SPEC, NA
from props import PROPS
ids = [i for i in SPEC if i in PROPS or i in NA]
with open(os.path.join(H, 'properties.jsonl'), 'w') as f:
    for i in ids:
        s = SPEC[i]
        assert len(s['title']) <= 80, s['title']
        f.write(json.dumps({'id': i, 'title': s['title'], 'statement': s['statement'], 'quantifier': {'over': s['over'], 'text': s['qtext']}, 'why_tests_cant': s['why'],
            'anchors': {'files': s['files'], 'mechanism': [{'name': n, 'where': w} for n, w in s['mech']], 'hook_needed': None}}) + '\n')
m = {'version': 1, 'setup_cmd': 'bash engine/build.sh', 'hooks': {'guard': 'none', 'enable': 'no hooks are needed: the checks compile the unmodified sources', 'source_commits': []},
     'checks': [{'property': i, 'quick_cmd': 'python3 run.py %s --tier quick' % i, 'thorough_cmd': 'python3 run.py %s --tier thorough' % i, 'evidence_file': 'evidence/%s.json' % i,
                 'technique': 'symbolic execution of LLVM bitcode compiled from the current sources, assertions decided by z3 (nonlinear reals, bit vectors) and exact rational normal forms; counterexamples replayed natively',
                 'level': 'model_checking', 'level_note': 'bounded: ' + PROPS[i]['bounds'] + '. ' + SPEC[i]['note']} for i in ids if i in PROPS],
     'not_applicable': [{'property': i, 'reason': NA[i]} for i in ids if i in NA],
     'notes': 'See DESIGN.md. engine/ is the symbolic executor, harness/ the property harnesses, run.py the driver.'}
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(ids), 'properties')
from design import HOW
def rd(n): return open(os.path.join(H, n)).read()
d = rd('DESIGN.head.md') + '\n## 2. Properties\n\n'
for i in ids:
    d += '### %s %s\n%s\n\n' % (i, SPEC[i]['title'], SPEC[i]['statement'])
    if i in NA: d += '*Not applicable:* %s\n\n' % NA[i]; continue
    h, t = HOW[i]
    d += '*Decided by* `%s`. %s\n\n*Bounds:* %s.\n\n*Why not by tests:* %s.\n\n' % (h, t, PROPS[i]['bounds'], SPEC[i]['why'])
d += rd('DESIGN.tail.md')
open(os.path.join(H, 'DESIGN.md'), 'w').write(d)
