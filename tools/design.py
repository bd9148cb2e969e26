#!/usr/bin/env python3
"""fills the tables of DESIGN.md from tools/design.in.md, proplist, known_findings.json, seeded/*/meta.json and tools/design_notes.json"""
import json, os, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ps = [json.loads(l) for l in open(V + '/properties.jsonl')]; lv = {c['property']: c for c in json.load(open(V + '/MANIFEST.json'))['checks']}
notes = json.load(open(V + '/tools/design_notes.json'))
out = []
for p in ps:
    i = p['id']; n = notes.get(i, {})
    out.append(f"### {i} {p['title']} (`{lv[i]['level']}`)\n\n- **Specified**: {n.get('spec', p['statement'])}\n- **Decided by**: {n.get('by', '')}\n- **Bounds and assumptions**: {lv[i]['level_note']}\n- **Cost**: {n.get('cost', '')}\n- **Beyond the tests**: {p['why_tests_cant']}.\n")
f = '\n'.join('- ' + k['what'] + (' [KNOWN FINDING]' if k['status'] != 'fixed' else '') for k in json.load(open(V + '/known_findings.json')))
s = ['| change | property | caught by | what it needs |', '|---|---|---|---|']
for m in sorted(glob.glob(V + '/seeded*/*/meta.json')):
    d = json.load(open(m)); i = os.path.basename(os.path.dirname(m)); s.append(f"| {i} | {d['property']} | {notes.get('seeds', {}).get(i, d['property'] + ' (quick)')} | {d['needs']} |")
t = open(V + '/tools/design.in.md').read().replace('@@PROPS@@', '\n'.join(out)).replace('@@FINDINGS@@', f).replace('@@SEEDS@@', '\n'.join(s))
open(V + '/DESIGN.md', 'w').write(t)
