#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and levels.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OTHER = {'C03', 'C04', 'P01', 'P02', 'P03', 'G01', 'G02', 'G03', 'G04', 'G05', 'G07', 'G08', 'G09', 'C06', 'C07'}  # obligations discharged for stated container sizes only
P = []; LV = {}; NA = {}
def prop(id, title, statement, over, q, why, files, mech, level='proof', note='', na=None, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q), why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state: d['anchors']['state'] = [dict(name=n, meaning=m) for n, m in state]
    assert len(title) <= 80, (id, len(title))
    assert not any(p['id'] == id for p in P), id
    P.append(d)
    if na: NA[id] = na
    else: LV[id] = dict(level='other' if id in OTHER else level, note=note)
exec(open(os.path.join(V, 'tools/proplist.py')).read())
P.sort(key=lambda p: p['id'])
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
B = 'contract-based deductive verification, bounded in container sizes: contracts over LLVM IR extracted from the real code on every run; every generated obligation is discharged per path by z3/cvc5 for all values, at the stated sizes'
T = 'contract-based deductive verification: contracts over LLVM IR extracted from the real code on every run; every generated obligation is discharged per path by z3/cvc5'
checks = [dict(property=p['id'], quick_cmd=f"python3 check.py {p['id']} --tier quick", thorough_cmd=f"python3 check.py {p['id']} --tier thorough", technique=B if LV[p['id']]['level'] == 'other' else T, level=LV[p['id']]['level'], level_note=LV[p['id']]['note']) for p in P if p['id'] in LV]
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())])
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
json.dump({k: v['level'] for k, v in LV.items()}, open(V + '/levels.json', 'w'), indent=1)
print(len(checks), 'checks,', len(NA), 'not applicable')
