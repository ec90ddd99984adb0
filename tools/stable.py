"""stable.py OUT.json: which baseline-stable tests no longer pass."""
import json, sys
o = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
print('lost:', sorted(set(b['stable']) - set(o['passed'])), 'passed', len(o['passed']), 'failed', len(o['failed']))
