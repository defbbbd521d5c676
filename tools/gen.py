#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from tools/props.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props import PROPS, NA  # noqa

TECH = 'symbolic execution of the real functions + SMT (Z3) over all inputs within bounds'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['id']
        n = p['statement'].count('. ') + 1
        assert n <= 3, (p['id'], n)
        f.write(json.dumps(dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=p['over'], text=p['quant']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         observe_at=p['obs'], hook_needed=None))) + '\n')
checks = [dict(property=p['id'], quick_cmd='./check.sh %s quick' % p['id'],
               thorough_cmd='./check.sh %s thorough' % p['id'],
               technique=TECH, level='model_checking', level_note=p['note'])
          for p in PROPS if p['id'] not in NA]
m = dict(version=1, setup_cmd='./setup.sh', checks=checks,
         not_applicable=[dict(property=k, reason=v) for k, v in sorted(NA.items())],
         notes='Engine in symqet/, one harness file per property in harness/, driver run.py. '
               'No hooks in /repo: the functions are executed symbolically by giving the '
               'qetpy modules symbolic arrays and a symbolic numpy at run time.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
