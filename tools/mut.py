#!/usr/bin/env python3
"""Development aid: runs checks against a scratch copy of /repo with one textual change.
usage: mut.py CHECKS FILE OLD NEW   (FILE below balloon_learning_environment/)
       mut.py CHECKS -r COMMIT      (reverts one commit)
       mut.py CHECKS -p PATCH"""
import os, shutil, subprocess, sys, tempfile
ids, a = sys.argv[1].split(','), sys.argv[2:]
d = tempfile.mkdtemp(prefix='mut_')
try:
  r = d + '/repo'
  subprocess.run(['git', 'clone', '-q', '/repo', r], check=True)
  if a[0] == '-r':
    subprocess.run(['git', '-C', r, '-c', 'user.email=a@b', '-c', 'user.name=n', 'revert', '--no-edit', '-n', a[1]], check=True, stdout=subprocess.DEVNULL)
  elif a[0] == '-p':
    subprocess.run(['git', '-C', r, 'apply', os.path.abspath(a[1])], check=True)
  else:
    f = f'{r}/balloon_learning_environment/{a[0]}'
    s = open(f).read()
    assert s.count(a[1]) >= 1, 'text not found'
    open(f, 'w').write(s.replace(a[1], a[2], 1))
  for i in ids:
    p = subprocess.run([os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/check.sh', i], env=dict(os.environ, VERIF_REPO=r, VERIF_SEED=os.environ.get('VERIF_SEED', '1')), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    o = p.stdout.decode()
    cl = [l.split(' clause ')[1].split(' violated')[0] for l in o.splitlines() if ' clause ' in l and ' violated' in l]
    print(i, 'rc', p.returncode, cl or o[-300:].replace("\n", " | "))
finally:
  shutil.rmtree(d)
