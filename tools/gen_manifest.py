#!/usr/bin/env python3
"""Writes MANIFEST.json from the LEVEL/TECHNIQUE/NOTE of the harness modules."""
import ast, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
REASONS = json.load(open(V + '/tools/not_applicable.json'))
checks, na = [], []
for p in props:
  f = f'{V}/harness/{p["id"].lower()}.py'
  if not os.path.exists(f):
    na.append(dict(property=p['id'], reason=REASONS.get(p['id'], 'no check built yet')))
    continue
  d = {}
  for n in ast.parse(open(f).read()).body:
    if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('LEVEL', 'TECHNIQUE', 'NOTE'):
      d[n.targets[0].id] = ast.literal_eval(n.value)
  checks.append(dict(property=p['id'], quick_cmd=f'./check.sh {p["id"]}',
    thorough_cmd=f'env VERIF_TIER=thorough ./check.sh {p["id"]}', evidence_file=f'evidence/{p["id"]}.json',
    technique=d.get('TECHNIQUE', 'TLA+ specification, TLC model checking and trace validation of the real code'),
    level=d['LEVEL'], level_note=d.get('NOTE', 'Covers the explored histories and inputs; trusts TLC and the Java float override.')))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
  notes='All checks: ./check.sh <id>; VERIF_TIER selects the depth, VERIF_SEED the random choices.'),
  open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not claimed')
