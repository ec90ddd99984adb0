"""C28: the checkpoint store."""
import os, pickle, re, shutil, tempfile
import kit, traindrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the checkpoint store (spec/Store.tla, MC_Store) checked with TLC; every transition is '
             'replayed through the real store functions in a scratch directory, at iteration numbers of every width, '
             'and TLC judges the recorded results (T_Store)')
NOTE = ('Stray file names are drawn from a list of look-alikes. Also replayed through the learning agents with '
        'their own retention, whose restored parameters are compared by digest.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxIter = {n}
  MaxTorn = {t}
  Durations <- {d}
INVARIANTS LatestIsHighest NeverBoth ResumesNoLaterThanTheName OneContentEach CollectionKeepsTheNewest CollectionIsIdempotent
  WiderWindowKeepsMore EmitInit
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''
STRAYS = ['checkpoint_best.pkl', 'checkpoint_final.pkl', 'checkpoint_1_2.pkl', 'notes.txt', 'checkpoint_.pkl',
          'checkpoint_00001.pkl.tmp', 'checkpoint_0x1f2.pkl', 'old_checkpoint_00003.pkl', 'checkpoint_00007.txt',
          'checkpoint_last1.pkl', 'checkpoint.pkl', 'checkpoint_00001', 'add_count_ckpt.00001.gz',
          'checkpoint_99999_backup.pkl', 'Checkpoint_00009.pkl', 'checkpoint_12.50.pkl', 'checkpoint_abcdef.pkl']


def listing(d):
  """Iterations of the checkpoints in d, and everything else."""
  its, rest = [], []
  for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
    m = re.fullmatch(r'checkpoint_([0-9]{5,})\.pkl', f)
    if m:
      its.append(int(m.group(1)))
    else:
      rest.append(f)
  return dict(files=its, strays=rest)


def replay(c, path, base, step, name):
  from balloon_learning_environment.agents import dopamine_utils as du
  root = tempfile.mkdtemp(prefix='store_', dir=kit.workdir())
  d = os.path.join(root, name)
  tr = [dict(op='new')]
  n = 0
  try:
    for a, _ in path:
      if a['op'] == 'save':
        i, n = base + step * a['i'], n + 1
        v = f'v{n}'
        bundle = dict(v=v, big=list(range(c.rng.choice([0, 3, 20000]))))
        if c.rng.random() < 0.15:   # an agent with nothing to remember
          bundle, v = c.rng.choice([({}, 'empty'), ([], 'empty'), (0, 'empty')])
        _, how = kit.call(du.save_checkpoint, d, i, lambda *unused: bundle)
        if c.rng.random() < 0.1:   # unable to bundle: nothing is written
          kit.call(du.save_checkpoint, d, i + 1, lambda *unused: None)
        tr.append(dict(op='save', i=i, v=v, how=how, **listing(d)))
      elif a['op'] == 'clean':
        at, dur = base + step * a['at'], step * a['d']
        os.makedirs(d, exist_ok=True)
        if dur == 50 and c.rng.random() < 0.5:
          _, how = kit.call(du.clean_up_old_checkpoints, d, at)
        else:
          _, how = kit.call(du.clean_up_old_checkpoints, d, at, checkpoint_duration=dur)
        tr.append(dict(op='clean', at=at, d=dur, how=how, **listing(d)))
      elif a['op'] == 'latest':
        got, how = kit.call(du.get_latest_checkpoint, d)
        tr.append(dict(op='latest', got=kit.enc(got), how=how, **listing(d)))
      elif a['op'] == 'load':
        i, seen = base + step * a['i'], []
        def unbundle(cd, it, b):
          seen.append((b['v'] if b else 'empty') if (cd, it) == (d, i) else 'wrong-place')
          return c.rng.random() < 0.8
        _, how = kit.call(du.load_checkpoint, d, i, unbundle)
        tr.append(dict(op='load', i=i, how=how, called=len(seen), v=seen[0] if seen else 'None', **listing(d)))
      elif a['op'] == 'tear':
        i = base + step * a['i']
        f = os.path.join(d, f'checkpoint_{i:05d}.pkl')
        whole = pickle.dumps(dict(v='torn', big=list(range(300))), protocol=c.rng.choice([2, 4]))
        os.makedirs(d, exist_ok=True)
        with open(f, 'wb') as fd:
          fd.write(whole[:c.rng.choice([0, 1, 5, 20, len(whole) // 2, len(whole) - 1])])
        tr.append(dict(op='tear', i=i))
      elif a['op'] == 'reload':
        seen = []
        def back(cd, it):
          du.load_checkpoint(cd, it, lambda *x: seen.append((x[2]['v'] if x[2] else 'empty') if x[:2] == (cd, it) else 'wrong-place') or True)
        got, how = kit.call(du.reload_latest_checkpoint, d, back)
        tr.append(dict(op='reload', got=kit.enc(got), how=how, v=seen[-1] if seen else '', blank='', **listing(d)))
      elif a['op'] == 'stray':
        os.makedirs(d, exist_ok=True)
        s = c.rng.choice(STRAYS)
        with open(os.path.join(d, s), 'w') as f:
          f.write('not a checkpoint')
        tr.append(dict(op='stray', name=s))
  finally:
    shutil.rmtree(root, ignore_errors=True)
  return tr


def agents(c, kind, dur, base):
  """A learning agent saving as it learns, and fresh ones resuming."""
  root = tempfile.mkdtemp(prefix='store_', dir=kit.workdir())
  d = os.path.join(root, 'checkpoints')
  tr = [dict(op='new')]
  try:
    ag = traindrv.make_agent(kind, seed=1, duration=dur)
    ag.set_summary_writer(None)
    for k in range(c.n(6, 15)):
      traindrv.learn(c.rng, ag, 6)
      i = base + k
      _, how = kit.call(ag.save_checkpoint, d, i)
      tr.append(dict(op='agentsave', i=i, d=-1 if dur is None else dur, v=traindrv.digest(ag), how=how, **listing(d)))
      if c.rng.random() < 0.6:
        other = traindrv.make_agent(kind, seed=2 + k, duration=dur)
        other.set_summary_writer(None)
        traindrv.learn(c.rng, other, c.rng.choice([0, 5]))
        got, how = kit.call(other.reload_latest_checkpoint, d)
        tr.append(dict(op='reload', got=kit.enc(got), v=traindrv.digest(other), blank='', how=how, **listing(d)))
      if c.rng.random() < 0.3:
        s = c.rng.choice(STRAYS)
        with open(os.path.join(d, s), 'w') as f:
          f.write('not a checkpoint')
        tr.append(dict(op='stray', name=s))
  finally:
    shutil.rmtree(root, ignore_errors=True)
  return tr


def run(c):
  r = c.model('MC_Store', CFG.format(n=c.n(3, 4), t=3, d=c.n('DursQuick', 'DursThorough')), workers=1)
  g = kit.Graph(r)
  ts = []
  for base, step in c.n([(0, 1), (99998, 1), (7, 50)],
                        [(0, 1), (8, 1), (98, 1), (9999, 1), (99997, 1), (99999, 1), (0, 50), (99900, 50),
                         (999998, 1), (123456, 7)]):
    for _, path in g.tour(c.rng, max_len=40):
      ts.append(replay(c, path, base, step, c.rng.choice(['checkpoints', 'run[1]/checkpoints', 'a checkpoint_dir',
                                                          'checkpoint_00005.pkl.d', 'what?/c*'])))
  traindrv.bind()
  for kind in ('dqn', 'quantile'):
    for dur, base in c.n([(None, 0), (2, 0), (0, 99998)],
                         [(None, 0), (2, 0), (0, 99998), (5, 99995), (1, 0), (3, 99990), (50, 0)]):
      ts.append(agents(c, kind, dur, base))
  c.cov['model_edges_replayed'] = g.n_edges
  c.judge('T_Store', ts)
