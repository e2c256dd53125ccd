#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props_text.py"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props_text as P
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P.PROPS:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks = []; na = []
for p in P.PROPS:
    if p.get('na'): na.append(dict(property=p['id'], reason=p['na'])); continue
    checks.append(dict(property=p['id'], quick_cmd=f'./check {p["id"]}', thorough_cmd=f'./check {p["id"]} --thorough', technique=p['technique'], level='proof', level_note=p['note']))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na)
m.update(getattr(P, 'EXTRA', {}))
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
