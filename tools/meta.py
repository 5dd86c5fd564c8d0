#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'src/lightspeed/'
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f for f in files], mechanism=[dict(name=n, where=S + w) for n, w in mech],
                     state=[dict(name=n, meaning=m) for n, m in (state or [])], observe_at=observe or [], hook_needed=None)))

exec(open(V + '/tools/props.py').read())
with open(V + '/properties.jsonl', 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
ids = [p['id'] for p in P]
assert len(set(ids)) == len(ids)
checks = []
for i in ids:
    if i in CLAIM:
        level, tech, note = CLAIM[i]
        checks.append(dict(property=i, quick_cmd='python3-vt lsvc/check.py %s --tier quick' % i,
                           thorough_cmd='python3-vt lsvc/check.py %s --tier thorough' % i,
                           evidence_file='evidence/%s.json' % i, technique=tech, level=level, level_note=note))
na = [dict(property=i, reason=NA[i]) for i in ids if i not in CLAIM]
json.dump(dict(version=1, setup_cmd='python3-vt lsvc/selftest.py', checks=checks, not_applicable=na), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(P), 'properties', len(checks), 'checks', len(na), 'not applicable')
