#!/usr/bin/env python3
"""single source of properties.jsonl and MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from proptable import P, NA
T = 'contract-based deductive verification (gvc VC generator on the real C, z3/cvc5), native replay'
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p.get('over', ['inputs', 'configurations']), text=p['text']),
                                why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
m = dict(version=1, setup_cmd='bash setup.sh',
         checks=[dict(property=p['id'], quick_cmd='python3-vt check.py %s' % p['id'],
                      thorough_cmd='python3-vt check.py %s --thorough' % p['id'],
                      technique=p.get('technique', T), level=p.get('level', 'proof'), level_note=p['note']) for p in P if p['id'] not in NA],
         not_applicable=[dict(property=k, reason=v) for k, v in NA.items()])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
