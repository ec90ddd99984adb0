"""C29: what the metric collectors record."""
import glob, os, pickle, re, shutil, tempfile
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the metric collectors (spec/Metrics.tla); TLC enumerates the histories of notifications '
             '(MC_Metrics), each is replayed through the real dispatcher and collectors, and the log, pickle and '
             'summary files are read back and judged by TLC (T_Metrics)')
NOTE = ('Up to 3 episodes of 3 steps exhaustively, longer ones at random. The final step is counted twice by every '
        'collector, as the existing tests pin.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxEps = {e}
  MaxSteps = {s}
  Starts <- StartsDef
INVARIANTS TypeOK EmitInit
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''
NUM = r'[-+0-9.einfa]+'


def read_console(d):
  path = os.path.join(d, 'metrics', 'console', 'console.log')
  text = open(path).read() if os.path.exists(path) else ''
  eps = [dict(ep=int(m[0]), reward=kit.flt(m[1]), len=int(m[2]), dist=[kit.flt(x) for x in m[3].split()])
         for m in re.findall(rf'Episode (\d+): reward: ({NUM}), episode length: (\d+), '
                             r'action distribution: \[([^\]]*)\]', text)]
  steps = [dict(k=int(m[0]), a=int(m[1]), r=kit.flt(m[2]), t=m[3] == 'True')
           for m in re.findall(rf'Step: (\d+), action: (-?\d+), reward: ({NUM}), terminal: (\w+)', text)]
  return dict(op='console', eps=eps, steps=steps)


def stat(s):
  return dict(k=kit.enc(s.step), a=kit.enc(s.action), r=kit.flt(s.reward), t=bool(s.terminal))


def read_pickle(d):
  eps = []
  for f in glob.glob(os.path.join(glob.escape(d), 'metrics', 'pickle', '*')):
    m = re.fullmatch(r'pickle_(\d+)\.pkl', os.path.basename(f))
    with open(f, 'rb') as fd:
      eps.append(dict(ep=int(m.group(1)) if m else -1, all=[stat(s) for s in pickle.load(fd)]))
  return dict(op='pickle', eps=sorted(eps, key=lambda e: e['ep']))


def board_files(d):
  return sorted(glob.glob(os.path.join(glob.escape(d), 'metrics', 'tensorboard', '*')))


def read_board(files):
  import tensorflow as tf
  pts = []
  for f in files:
    for ev in tf.compat.v1.train.summary_iterator(f):
      for v in ev.summary.value:
        pts.append(dict(tag=v.tag, step=int(ev.step), v=kit.flt(tf.make_ndarray(v.tensor))))
  return dict(op='board', pts=pts, earlier=False)


def replay(c, ts, ep0, actions, then=None):
  """One training; then=(first episode, actions) is another one in the same directory."""
  d = tempfile.mkdtemp(prefix='met_', dir=kit.workdir())
  try:
    tr = yield from train(c, d, ep0, actions, probe=then is None)
    if then is not None:
      old = board_files(d)
      tr += yield from train(c, d, then[0], then[1], old)
    ts.append(tr)
  finally:
    shutil.rmtree(d, ignore_errors=True)


def train(c, d, ep0, actions, old=None, probe=True):
  import functools, gin
  from balloon_learning_environment import train_lib
  from balloon_learning_environment.metrics import collector, collector_dispatcher, statistics_instance
  rng = c.rng
  gin.clear_config()
  fg, fq, na = rng.random() < 0.6, rng.choice([1, 1, 2, 3]), rng.choice([1, 2, 3, 5, 40])
  for k in ('ConsoleCollector', 'TensorboardCollector'):
    gin.bind_parameter(k + '.fine_grained_logging', fg)
    gin.bind_parameter(k + '.fine_grained_frequency', fq)
  calls = []

  def recorder(i):
    class Rec(collector.Collector):
      def get_name(self):
        return f'rec{i}'
      def pre_training(self):
        calls.append([i, 'pre'])
      def begin_episode(self):
        calls.append([i, 'begin'])
      def step(self, statistics):
        calls.append([i, 'step'])
      def end_episode(self, statistics):
        calls.append([i, 'end'])
      def end_training(self):
        calls.append([i, 'fin'])
    return Rec

  names = [n for n in ('console', 'pickle', 'tensorboard') if rng.random() < 0.8]
  rng.shuffle(names)
  named = train_lib.get_collector_data(names + ['no such collector'])
  nr = rng.randrange(3)
  cons = list(named)
  for i in range(nr):   # recorders anywhere, in their own order
    lo = 0 if i == 0 else max(j for j, x in enumerate(cons) if x.__name__ == 'Rec') + 1
    cons.insert(rng.randrange(lo, len(cons) + 1), recorder(i + 1))
  tr = []
  rew = lambda: rng.choice([0.0, 1.0, -0.5, rng.uniform(-1, 1), rng.uniform(0, 1e-3)])
  try:
    disp, how = kit.call(collector_dispatcher.CollectorDispatcher, d, na, cons, ep0)
    tr.append(dict(op='new', ep0=ep0, na=na, fg=fg, fq=fq, nr=nr, how=how, again=old is not None, pickle='pickle' in names, board='tensorboard' in names,
                   writer=how == 'ok' and disp.get_summary_writer() is not None))
    if how != 'ok':
      return tr
    k, last = 0, None
    S = statistics_instance.StatisticsInstance
    for a in actions:
      yield
      op = a['op']
      if op == 'pre':
        tr.append(dict(op='pre', how=kit.call(disp.pre_training)[1]))
      elif op == 'begin':
        k, last = 0, None
        tr.append(dict(op='begin', how=kit.call(disp.begin_episode)[1]))
      elif op == 'step':
        last = S(step=k, action=rng.randrange(na), reward=rew(), terminal=False)
        k += 1
        tr.append(dict(op='step', how=kit.call(disp.step, last)[1], console='console' in names, **stat(last)))
      elif op == 'end':
        s = S(step=k, action=last.action if last and a['t'] else rng.randrange(na),
              reward=last.reward if last else 0.0, terminal=a['t'])
        tr.append(dict(op='end', how=kit.call(disp.end_episode, s)[1], **stat(s)))
      elif op == 'fin':
        tr.append(dict(op='fin', how=kit.call(disp.end_training)[1]))
    if tr[-1]['op'] == 'fin':
      # Everything is on disk after the shutdown.
      if 'console' in names and old is None:
        tr.append(read_console(d))
      if 'pickle' in names or old:
        tr.append(read_pickle(d))
      if 'tensorboard' in names:
        tr.append(read_board([f for f in board_files(d) if f not in (old or [])]))
      if old:
        tr.append(dict(read_board(old), earlier=True))
      tr.append(dict(op='calls', calls=calls))
    elif probe and rng.random() < 0.5 and tr[-1]['op'] == 'step' and 'console' in names:
      s = S(step=k, action=rng.choice([-1, na, na + 3]), reward=0.0, terminal=False)
      tr.append(dict(op='step', how=kit.call(disp.step, s)[1], console=True, **stat(s)))
  finally:
    gin.clear_config()
  return tr


def finish(path):
  """The path, completed so that training is shut down."""
  acts = [a for a, _ in path]
  on = [a['op'] for a in acts]
  if not on or on[-1] == 'fin':
    return acts
  last_b = max([i for i, o in enumerate(on) if o == 'begin'], default=-1)
  last_e = max([i for i, o in enumerate(on) if o == 'end'], default=-1)
  if 'pre' not in on:
    return acts
  return acts + ([dict(op='end', t=False)] if last_b > last_e else []) + [dict(op='fin')]


def run(c):
  r = c.model('MC_Metrics', CFG.format(e=c.n(3, 4), s=c.n(3, 5)), workers=1)
  g = kit.Graph(r)
  ts, players = [], []
  add = lambda *a: players.append(replay(c, ts, *a))
  for _ in range(c.n(1, 5)):
    for start, path in g.tour(c.rng, max_len=25):
      acts = [a for a, _ in path]
      add(g.nodes[start]['ep0'], acts if c.rng.random() < 0.15 else finish(path))
  for _ in range(c.n(15, 150)):
    acts = [dict(op='pre')]
    for _ in range(c.rng.randrange(1, 6)):
      n = c.rng.randrange(1, 30)
      acts += [dict(op='begin')] + [dict(op='step')] * n + [dict(op='end', t=c.rng.random() < 0.5)]
    add(c.rng.choice([0, 1, 49, 150, 99999]), acts + [dict(op='fin')])
  # Trainings that go on, perhaps from an earlier episode, after a crash.
  def episodes(n):
    out = [dict(op='pre')]
    for _ in range(n):
      out += [dict(op='begin')] + [dict(op='step')] * c.rng.randrange(1, 9) + [dict(op='end', t=c.rng.random() < 0.5)]
    return out
  for _ in range(c.n(12, 150)):
    e0, n = c.rng.choice([0, 1, 49, 150]), c.rng.randrange(0, 5)
    first = episodes(n) + c.rng.choice([[], [dict(op='fin')], [dict(op='begin')] + [dict(op='step')] * 3])
    add(e0, first, (e0 + c.rng.randrange(0, n + 1), episodes(c.rng.randrange(1, 4)) + [dict(op='fin')]))
  kit.side_by_side(c.rng, players)
  c.cov['model_edges_replayed'] = g.n_edges
  c.judge('T_Metrics', ts)
