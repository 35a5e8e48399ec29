#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from checks/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'checks'))
sys.dont_write_bytecode = True
import props

TECH = 'abstract interpretation of the source AST (value-numbering domain, exact aliasing, fault/trace partitioning)'
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in props.P + props.NA:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']])),
                           ensure_ascii=True) + '\n')
checks = []
for p in props.P:
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'],
                       thorough_cmd='python3 run.py %s thorough' % p['id'], technique=p.get('tech') or TECH, level='other',
                       level_note='Decides the property from the source for every input over the reals, within the enumerated '
                                  'abstract dimensions and lengths; sound up to hash collision (< 2^-120) and the library '
                                  'transfer functions. ' + p['note']))
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=checks,
         not_applicable=[dict(property=p['id'], reason=p['reason']) for p in props.NA],
         notes='Static analysis only: no check imports or executes code of /repo. No hooks. See DESIGN.md.')
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
