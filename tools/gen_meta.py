#!/usr/bin/env python3
"""write properties.jsonl and MANIFEST.json from checks/meta.py"""
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from checks import REGISTRY
from checks import meta

out, chk, na = [], [], []
for p in sorted(meta.PROPS, key=lambda p: p['pid']):
    out.append(dict(id=p['pid'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                    anchors=dict(files=p['files'], mechanism=p['mech'])))
    if p['technique'] is None:
        continue
    assert p['pid'] in REGISTRY, p['pid']
    chk.append(dict(property=p['pid'], quick_cmd='python3 check.py %s' % p['pid'], thorough_cmd='python3 check.py %s --thorough' % p['pid'],
                    technique='static analysis: ' + p['technique'], level='other', level_note=p['note']))
assert set(REGISTRY) == {c['property'] for c in chk}, set(REGISTRY) ^ {c['property'] for c in chk}
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    f.writelines(json.dumps(o) + '\n' for o in out)
m = dict(version=1, setup_cmd='python3 -m compileall -q fsa checks', checks=chk, not_applicable=meta.NOT_APPLICABLE,
         notes='All checks analyse the source under /repo (FSA_REPO overrides the location); nothing of /repo is imported or executed. No hooks.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'properties', len(chk), 'checks')
# per-property section of DESIGN.md
mark = '(Per-property section is generated below.)\n'
d = open(os.path.join(V, 'DESIGN.md')).read()
head, tail = d.split(mark, 1)
end = '<!-- end of generated section -->\n'
rest = tail.split(end, 1)[1] if end in tail else ''
g = ['\n## How each property is decided\n']
nar = {n['property']: n['reason'] for n in meta.NOT_APPLICABLE}
for p in sorted(meta.PROPS, key=lambda p: p['pid']):
    g.append('\n### %s %s\n' % (p['pid'], p['title']))
    if p['technique'] is None:
        g.append('Not applicable: %s\n' % nar[p['pid']])
    else:
        g.append('Method: %s. %s\n\nAssurance: %s\n\nCode: `checks/%s.py: %s`. Anchors: %s.\n' % (
            p['technique'], meta.EXPLANATIONS[p['pid']], p['note'], REGISTRY[p['pid']][0], REGISTRY[p['pid']][1], ', '.join('`%s`' % f for f in p['files'])))
sm = '## Planted changes and the check that catches each\n'
rest = rest.split(sm, 1)[0]
rows = []
for sid in sorted(os.listdir(os.path.join(V, 'seeded'))) if os.path.isdir(os.path.join(V, 'seeded')) else []:
    s = json.load(open(os.path.join(V, 'seeded', sid, 'meta.json')))
    rows.append('| %s | %s | %s | %s |\n' % (sid, s['property'], s['what_it_breaks'].replace('|', '/'), s['needs'].replace('|', '/')))
if rows:
    rest += sm + '\nEach is caught (exit 1, VIOLATION line) by the check of its own property; none was committed in /repo.\n\n| id | caught by | what it breaks | needs |\n|---|---|---|---|\n' + ''.join(rows)
open(os.path.join(V, 'DESIGN.md'), 'w').write(head + mark + ''.join(g) + '\n' + end + rest)
