"""C41: the training and evaluation programs do what their command line says."""
import os, shutil
import kit, cmddrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the command-line programs and the run directories they share (spec/Command.tla, '
             'MC_Command), checked with TLC; its command sequences are run through the real programs with random '
             'further flags, and TLC judges what was built, played, saved and written (T_Command)')
NOTE = ('The programs run in process; agents, environments and collectors are recording ones put into the public '
        'registries, so what is judged is the programs, not the learning. Defaults are exercised where they are '
        'affordable. Per-step order is decided by C25 and C27.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  Agents = {{{agents}}}
  Runs = {{{runs}}}
  MaxN = {n}
  MaxCommands = {k}
  MaxIdx = {idx}
PROPERTIES OthersAlone NeverBack EvalReadsOnly PlannedOnce
INVARIANTS NamesDiffer
VIEW View
CHECK_DEADLOCK FALSE
'''
EMIT = 'INVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\n'


def extras(rng, prog):
  """Flags that do not change which run it is."""
  f = {}
  if rng.random() < 0.5:
    f['wind_field'] = rng.choice(['simple', 'simple', 'generative'])
  else:
    f['wind_field'] = 'simple'
  if rng.random() < 0.3:
    f['renderer'] = 'matplotlib'
  if rng.random() < 0.5:
    f['render_period'] = rng.choice([1, 2, 3, 7, 1000])
  if rng.random() < 0.3:
    f['agent_gin_file'] = 'other'
  if rng.random() < 0.3:
    f['gin_bindings'] = rng.choice(['cli', 'x y', 'third'])
  if prog == 'train':
    f['episodes_per_iteration'] = rng.choice([1, 2, 3])
    if rng.random() < 0.7:
      f['max_episode_length'] = rng.choice([1, 2, 10, 11, 20, 21, 30])
    if rng.random() < 0.6:
      f['collectors'] = rng.choice([['console'], ['pickle', 'console'], ['probe1'], ['probe2', 'nosuch', 'probe1'], ['nosuch'],
                                    ['tensorboard', 'pickle', 'probe1']])
    if rng.random() < 0.5:
      f['env_name'] = rng.choice(['VerifOther-v0', 'BalloonLearningEnvironment-v0'])
  else:
    if rng.random() < 0.5:
      f['pretty_json'] = rng.choice(['true', 'false'])
    if rng.random() < 0.3:
      f['name_override'] = rng.choice(['mine', 'a_b_3', 'v1.2'])
  return f


def told(e):
  """Flag values as the specification reads them."""
  if e['f'].get('pretty_json'):
    e['f']['pretty_json'] = e['f']['pretty_json'] == 'true'
  return e


def run(c):
  os.environ['MPLBACKEND'] = 'Agg'
  rng = c.rng
  c.model('MC_Command', CFG.format(agents='"a", "a_b"', runs='1, 2', n=c.n(2, 3), k=c.n(4, 5), idx=1), name='MC_Command')
  r = c.model('MC_Command', CFG.format(agents='"a", "a_b"', runs='1, 2', n=2, k=c.n(2, 3), idx=1) + EMIT,
              name='MC_Command_replayed', workers=1)
  g = kit.Graph(r)
  bench = cmddrv.Bench(rng)
  traces = []
  for _, path in g.tour(rng, max_len=40, limit=c.n(120, 1500)):
    tr = [bench.fresh()]
    for a, _ in path:
      f = dict(a['f'])
      f.update({k: v for k, v in extras(rng, a['op']).items() if k not in f})
      if a['op'] == 'train':
        f['base_dir'] = ''
        if f['run_number'] == 1 and rng.random() < 0.5:
          del f['run_number']
      else:
        f['output_dir'] = ''
        if 'checkpoint_dir' in f:
          f['checkpoint_dir'] += '/checkpoints'
        if rng.random() < 0.3:
          f['suite'] = rng.choice(['tiny_eval', 'micro_eval', 'small_eval'])
        if rng.random() < 0.2:
          f['num_shards'] = rng.choice([1, 2, 3])
          f['shard_idx'] = rng.randrange(f['num_shards'])
        if 'checkpoint_dir' in f and rng.random() < 0.15:
          del f[rng.choice(['checkpoint_dir', 'checkpoint_idx'])]
      tr.append(told(bench.run(a['op'], f, never=rng.random() < 0.2)))
    shutil.rmtree(bench.base)
    traces.append(tr)

  # Commands that leave nearly everything to the defaults.
  def single(prog, f, **k):
    tr = [bench.fresh(), told(bench.run(prog, f, **k))]
    shutil.rmtree(bench.base)
    traces.append(tr)
  single('train', dict(base_dir='', wind_field='simple'), many=True, never=True)
  single('train', dict(base_dir='', num_iterations=2), many=True)
  single('train', dict(base_dir='', num_iterations=1, episodes_per_iteration=1), never=True)
  single('train', dict(base_dir='', num_iterations=1, agent='a', renderer='matplotlib'))
  single('eval', dict(output_dir=''), many=True, never=True)
  for s in ('medium_eval', 'hard_strata', 'tiny_eval', 'easiest_strata', 'hardest_strata', 'mid_strata', 'easy_strata', 'all_strata'):
    single('eval', dict(output_dir='', suite=s, agent=rng.choice(['a', 'a_b', 'dqn']), wind_field='simple'), many=True, never=True)

  # Commands that must be refused.
  t = dict(base_dir='', num_iterations=1, episodes_per_iteration=1, wind_field='simple', agent='a')
  v = dict(output_dir='', suite='micro_eval', wind_field='simple', agent='a')
  bad = [('train', dict(t, agent='nosuch')), ('train', dict(t, wind_field='nosuch')), ('train', dict(t, renderer='nosuch')),
         ('train', dict(t, env_name='NoSuch-v0')), ('train', dict(t, nosuch='1')), ('train', {k: x for k, x in t.items() if k != 'base_dir'}),
         ('train', dict(t, num_iterations='many')),
         ('eval', dict(v, agent='nosuch')), ('eval', dict(v, wind_field='nosuch')), ('eval', dict(v, renderer='nosuch')),
         ('eval', dict(v, suite='nosuch')), ('eval', dict(v, num_shards=0)), ('eval', dict(v, shard_idx=-1)),
         ('eval', dict(v, checkpoint_dir='a/1/checkpoints', checkpoint_idx=4)), ('eval', dict(v), ['left over'])]
  for p, f, *argv in bad:
    tr = [bench.fresh(), bench.run(p, f, op='bad', argv=argv[0] if argv else None)]
    shutil.rmtree(bench.base)
    traces.append(tr)
  c.judge('T_Command', traces)
  c.cov['commands'] = dict(sequences=len(traces), train=sum(e['op'] == 'train' for t in traces for e in t),
                           eval=sum(e['op'] == 'eval' for t in traces for e in t), refused=len(bad),
                           resumed=sum(e['op'] == 'train' and e['reload'][1] >= 0 for t in traces for e in t),
                           from_checkpoint=sum(bool(e.get('loads')) for t in traces for e in t))
