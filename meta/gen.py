#!/usr/bin/env python3
"""writes ../properties.jsonl and ../MANIFEST.json from the records in meta/props.py"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
from props import PROPS, NA
V = os.path.dirname(H)
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS + NA:
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p.get('over', ['inputs']), 'text': p['quant']},
                            'why_tests_cant': p['why'],
                            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 -c "from vp.prog import ensure_tool; ensure_tool()"',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py %s --tier thorough' % p['id'],
                 'technique': p['tech'], 'level': 'other', 'level_note': p['note']} for p in PROPS],
     'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA]}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
for p in PROPS + NA:
    assert len(p['title']) <= 80, p['id']

# DESIGN.md
import importlib
sys.path.insert(0, V)
t = open(H + '/design.tmpl.md').read()
out = []
for p in PROPS:
    r = importlib.import_module('vp.rules.' + p['id'].lower())
    ev = V + '/evidence/%s.json' % p['id']
    cost = json.load(open(ev)) if os.path.exists(ev) else None
    out.append('### %s — %s\n\n%s\n\n*How it is decided.* %s\n\n*Technique:* %s.\n\n*Anchors:* %s.\n\n*Bounds and assumptions:* %s\n%s' % (
        p['id'], p['title'], p['statement'], r.EXPLANATION, p['tech'], '; '.join('%s: `%s`' % (a, b) for a, b in p['mech']), p['note'],
        ('\n*Why tests cannot:* ' + p['why'] + '\n')))
t = t.replace('@@PROPS@@', '\n'.join(out))
t = t.replace('@@NA@@', '\n'.join('* **%s %s.** %s' % (p['id'], p['title'], p['reason']) for p in NA))
k = json.load(open(V + '/known_findings.json'))
t = t.replace('@@FIXED@@', '\n'.join('* ' + x.replace('fixed: property=', '') for x in k['fixed']))
rows = ['| seed | property | breaks | needs | caught by |', '|---|---|---|---|---|']
for s in sorted(os.listdir(V + '/seeded')) if os.path.isdir(V + '/seeded') else []:
    m = json.load(open(V + '/seeded/%s/meta.json' % s))
    rows.append('| %s | %s | %s | %s | %s |' % (s, m['property'], m['what_it_breaks'], m['needs'], m.get('caught_by', m['property'])))
t = t.replace('@@SEEDS@@', '\n'.join(rows))
open(V + '/DESIGN.md', 'w').write(t)
