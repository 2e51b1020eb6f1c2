#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and families.py."""
import json, os, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from families import PROPERTIES, FAMILIES
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    pid = p['id']
    if pid not in PROPERTIES:
        na.append(dict(property=pid, reason='no check has been built yet'))
        continue
    fams = [f for f, _ in PROPERTIES[pid]['families']]
    models = sorted({m['module'] for f in fams for m in FAMILIES[f].get('models', ())})
    checks.append(dict(
        property=pid,
        quick_cmd='python3 check.py %s --tier quick' % pid,
        thorough_cmd='python3 check.py %s --tier thorough' % pid,
        technique='TLA+ specification (%s) checked with TLC, bound to the code by TLC trace validation of recorded runs '
                  '(%s)%s' % (', '.join(models) or ', '.join(FAMILIES[f]['trace'] for f in fams),
                              ', '.join(FAMILIES[f]['trace'] for f in fams),
                              ' and replay of the TLC state graph' if any(m.get('dump') for f in fams for m in FAMILIES[f].get('models', ())) else ''),
        level=PROPERTIES[pid].get('level', 'model_checking'),
        level_note=PROPERTIES[pid].get('note', 'The design is checked exhaustively within small constants; the code is '
                                       'bound to it by validating every event of recorded executions, so the guarantee '
                                       'about the code covers the executions explored (see evidence).')))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='TLA+ with TLC. One check per property; python3 check.py PROPERTY [--tier quick|thorough].')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
