#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from spec.py and props.py."""
import json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from spec import SPEC
from props import PROPS
NOTE = ('Bounded model checking by symbolic execution of the LLVM IR of the current sources, decided by Z3 for every value within these bounds: {b}. '
        'Outside: {o}. Trusted: clang 18 front end and -O1, the engine (sampled traces are replayed on the MinGW build of the same sources), the Win32 stand-ins and the harness oracle.')
lines, checks, na = [], [], []
for pid in sorted(SPEC):
    s = SPEC[pid]
    assert len(s['title']) <= 80, pid
    if pid not in PROPS and not s['na']:
        print('no check:', pid); continue
    lines.append(json.dumps(dict(id=pid, title=s['title'], statement=s['statement'], quantifier=dict(over=s['over'], text=s['quant']),
        why_tests_cant=s['why'], anchors=dict(files=s['files'], mechanism=[dict(name=n, where=w) for n, w in s['mech']]))))
    if pid in PROPS:
        p = PROPS[pid]
        checks.append(dict(property=pid, quick_cmd=f'python3 check.py {pid} --tier quick', thorough_cmd=f'python3 check.py {pid} --tier thorough',
            evidence_file=f'evidence/{pid}.json', technique='SMT-based symbolic execution of the LLVM IR of the real code', level='model_checking',
            level_note=NOTE.format(b=p['bounds'], o=p['outside'])))
    else:
        na.append(dict(property=pid, reason=s['na']))
for pid in PROPS:
    if pid not in SPEC: print('no text:', pid)
open(V + '/properties.jsonl', 'w').write('\n'.join(lines) + '\n')
json.dump(dict(version=1, setup_cmd='python3 check.py setup', checks=checks, not_applicable=na,
    notes='properties.jsonl and this file are generated by gen.py from spec.py and props.py; no hooks in /repo are needed.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
