#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(R + '/properties.jsonl', 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['quant']),
            why_tests_cant=p['why'],
            anchors=dict(files=p['files'], state=[dict(name=a, meaning=b, where=c) for a, b, c in p['state']],
                         mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['observe'], hook_needed=p['hook']))) + '\n')
m = dict(version=1, setup_cmd='python3 tools/setup.py',
         checks=[dict(property=p['id'], quick_cmd='python3 check.py ' + p['id'],
                      thorough_cmd='python3 check.py ' + p['id'],
                      technique='TLA+ specification checked with TLC; spec transitions replayed into the code, recorded executions validated by TLC',
                      level='model_checking', level_note=p['note'] or
                      'Exhaustive on the specification within the constants of its MC_*.cfg; the code is bound to it by replaying '
                      'every transition of the small state graph and by TLC validation of seeded random executions.')
                 for p in P if not p['na']],
         not_applicable=[dict(property=p['id'], reason=p['na']) for p in P if p['na']])
with open(R + '/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
