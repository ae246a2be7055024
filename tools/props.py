#!/usr/bin/env python3
"""source of properties.jsonl and MANIFEST.json (run after editing; not part of any check)"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, level='model_checking', note='', technique=''):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe), _level=level, _note=note, _tech=technique))
exec(open(os.path.join(V, 'tools', 'proplist.py')).read())
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for x in P: f.write(json.dumps({k: v for k, v in x.items() if k[0] != '_'}) + '\n')
hooks = dict(guard='NONE', enable='no hooks: /repo carries only fix: commits; harnesses compile a ported copy of the working tree', source_commits=[])
json.dump(dict(version=1, setup_cmd='bash setup.sh', hooks=hooks,
    checks=[dict(property=x['id'], quick_cmd='./check ' + x['id'], thorough_cmd='./check %s --thorough' % x['id'], technique=x['_tech'], level=x['_level'], level_note=x['_note']) for x in P],
    not_applicable=[dict(property=a, reason=b) for a, b in NA], notes=NOTES), open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
