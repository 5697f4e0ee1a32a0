#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py and checks/table.py."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from tools.props import PROPS
from checks import table
with open(ROOT + '/properties.jsonl', 'w') as f:
    for q in PROPS:
        assert len(q['title']) <= 80, q['id']
        f.write(json.dumps(dict(id=q['id'], title=q['title'], statement=q['statement'], quantifier=dict(over=q['over'], text=q['quant']),
                                why_tests_cant=q['why'], anchors=dict(files=q['files'], mechanism=[dict(name=a, where=b) for a, b in q['mech']]))) + '\n')
checks, na = [], []
for q in PROPS:
    c = table.PROPS.get(q['id'])
    if c:
        checks.append(dict(property=q['id'], quick_cmd='checks/run.py %s --tier quick' % q['id'], thorough_cmd='checks/run.py %s --tier thorough' % q['id'],
                           technique=c.get('technique', table.TECHNIQUE), level='proof', level_note=c.get('note', table.NOTE)))
    else:
        na.append(dict(property=q['id'], reason=q['na'] or 'no contract built for it yet'))
m = dict(version=1, setup_cmd='python3 -m compileall -q gvc specs checks', checks=checks, not_applicable=na)
json.dump(m, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
open(ROOT + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'claimed', len(na), 'not')
