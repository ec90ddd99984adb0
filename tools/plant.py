#!/usr/bin/env python3
"""Development aid: turns an edit into a planted bug below seeded/ and confirms it.
usage: plant.py BATCH.py   where BATCH.py defines BUGS = [dict(id, property, file, edits=[(old, new)..], needs, breaks, demo)]
       plant.py --confirm ID..."""
import json, os, runpy, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/seeded'
SH = '''#!/bin/bash
# Run with cwd at the repository root: exit 0 when the property holds.
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=3 MPLBACKEND=Agg
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''

def clone(d):
  r = d + '/repo'
  subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
  return r

def demo(i, r):
  p = subprocess.run(['bash', f'{V}/{i}/demo.sh'], cwd=r, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
  return p.returncode, p.stdout.decode()[-400:]

def tests(r, d):
  s = open('/opt/vp/test.sh').read().replace('cd /repo ', f'cd {r} ')
  open(d + '/t.sh', 'w').write(s)
  subprocess.run(['bash', d + '/t.sh', d + '/o.json'], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
  o = json.load(open(d + '/o.json')); b = json.load(open('/opt/vp/BASELINE.json'))
  return sorted(set(b['stable']) - set(o['passed']))

def confirm(i):
  d = tempfile.mkdtemp(prefix='plant_')
  try:
    r = clone(d)
    a = demo(i, r)
    q = subprocess.run(['git', '-C', r, 'apply', f'{V}/{i}/patch.diff'])
    b = demo(i, r)
    t = tests(r, d)
    ok = a[0] == 0 and q.returncode == 0 and b[0] != 0 and not t
    print(i, 'CONFIRMED' if ok else 'REJECTED', 'clean', a[0], 'patched', b[0], 'lost', t[:4])
    if a[0]: print(a[1])
    if not ok or '-v' in sys.argv: print(b[1])
    return ok
  finally:
    shutil.rmtree(d)

if sys.argv[1] == '--confirm':
  for i in sys.argv[2:]: confirm(i)
else:
  for g in runpy.run_path(sys.argv[1])['BUGS']:
    d = tempfile.mkdtemp(prefix='plant_')
    r = clone(d)
    for e in g['edits']:
      f, old, new = e if len(e) == 3 else (g['file'],) + tuple(e)
      f = f'{r}/balloon_learning_environment/{f}'
      s = open(f).read()
      assert s.count(old) == 1, (g['id'], s.count(old), old)
      open(f, 'w').write(s.replace(old, new))
    o = f"{V}/{g['id']}"; os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(subprocess.run(['git', '-C', r, 'diff'], check=True, stdout=subprocess.PIPE).stdout.decode())
    open(o + '/demo.py', 'w').write(g['demo'].lstrip('\n'))
    open(o + '/demo.sh', 'w').write(SH); os.chmod(o + '/demo.sh', 0o755)
    json.dump(dict(property=g['property'], needs=g['needs'], what_it_breaks=g['breaks']), open(o + '/meta.json', 'w'), indent=1)
    shutil.rmtree(d)
    if not confirm(g['id']): shutil.move(o, '/tmp/rejected_' + g['id'])
