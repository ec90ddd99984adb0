#!/usr/bin/env python3
"""fixed.py PROP COMMIT CLAUSE WHAT: records a repaired defect."""
import json, sys
p = __file__.rsplit('/', 2)[0] + '/known_findings.json'
d = json.load(open(p))
prop, commit, clause, what = sys.argv[1:]
d['findings'].append(dict(property=prop, status='fixed', commit=commit, clause=clause, key=None,
                          what=f'fixed: property={prop} {commit} {what}'))
json.dump(d, open(p, 'w'), indent=1)
