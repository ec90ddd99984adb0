"""C38: reservoirs of wind fields."""
import os, pickle, shutil, tempfile
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of a reservoir of wind fields (spec/Reservoir.tla); TLC checks that training and evaluation never '
             'meet (MC_Reservoir) and enumerates histories of batches and evaluations, which are replayed with the real '
             'reservoir; the fields returned, and how often, are judged by TLC (T_Reservoir)')
NOTE = 'Small fields, each of which carries its position in the data set. The law of the draws is judged by counts (6.5 sigma).'
CFG = '''SPECIFICATION SpecE
CONSTANTS
  MaxN = {n}
  MaxOps = {k}
INVARIANTS NeverTrainsOnEvaluationFields EverythingIsUsable EvaluationIsTheSameEveryTime EmitInit
VIEW View
CHECK_DEADLOCK FALSE
'''


def run(c):
  kit.setup_repo()
  import numpy as np, jax.numpy as jnp
  from balloon_learning_environment.generative import dataset_wind_field_reservoir as D
  rng = c.rng

  def dataset(n):
    """n different fields; entry 0 is the position."""
    shape = rng.choice([(2,), (2, 2, 1, 3, 2), (1, 3, 2)])
    a = np.random.default_rng(rng.randrange(2**31)).normal(0, 9, (n,) + shape).astype(np.float32)
    a.reshape(n, -1)[:, 0] = np.arange(n)
    return a

  def look(out, data):
    out = np.asarray(out)
    if out.shape[1:] != data.shape[1:]:
      return dict(rows=[], intact=False)
    rows = [int(v) for v in out.reshape(len(out), -1)[:, 0]] if len(out) else []
    intact = all(0 <= r < len(data) and np.array_equal(out[i], data[r]) for i, r in enumerate(rows))
    return dict(rows=rows, intact=bool(intact))

  class Run:
    def __init__(self):
      self.t = [dict(op='begin')]

    def new(self, n, held, seed, data=None, shards=None):
      self.data = dataset(n) if data is None else data
      args = dict(eval_batch_size=held, rng_seed=seed)
      if held == 10 and rng.random() < 0.5: args.pop('eval_batch_size')
      if seed == 0 and rng.random() < 0.5: args.pop('rng_seed')
      arg = shards if shards else rng.choice([jnp.asarray, np.asarray])(self.data)
      self.r, exc = kit.call(D.DatasetWindFieldReservoir, arg, **args)
      self.t.append(dict(op='new', exc=exc, n=n, held=held, seed=str(seed)))
      return exc == 'ok'

    def batch(self, size):
      out, exc = kit.call(self.r.get_batch, size)
      self.t.append(dict(op='batch', size=size, exc=exc, **(look(out, self.data) if exc == 'ok' else dict(rows=[]))))

    def eval(self):
      out, exc = kit.call(self.r.get_eval_batch)
      self.t.append(dict(op='eval', exc=exc, **(look(out, self.data) if exc == 'ok' else dict(rows=[]))))

  g = kit.Graph(c.model('MC_Reservoir', CFG.format(n=c.n(5, 6), k=c.n(4, 5)), workers=1))
  ts = []
  walks = list(g.tour(rng, max_len=12))
  for start, path in walks:
    r, node = Run(), g.nodes[start]
    scale = rng.choice([1, 1, 2, 3])
    r.new(node['n'] * scale, node['held'] * scale, rng.choice([0, rng.randrange(2**31)]))
    for a, _ in path:
      r.batch(a['s'] * scale) if a['op'] == 'batch' else r.eval()
    ts.append(r.t)
  def life():   # two reservoirs of one seed, one of another, in any order, beside others
    r = Run()
    ts.append(r.t)
    n = rng.randrange(12, 60)
    held, seed = rng.choice([0, 1, 5, 10, 10, n - 1, n]), rng.choice([0, 1, rng.randrange(2**31)])
    sizes = [rng.choice([1, 2, 3, max(1, n - held), rng.randrange(1, n + 1)]) for _ in range(rng.randrange(1, 8))]
    data = dataset(n)
    for s in (seed, seed, rng.randrange(2**31), seed):
      r.new(n, held, s, data)
      for k in sizes:
        yield
        if rng.random() < 0.3: r.eval()
        r.batch(k)
      r.eval()
  kit.side_by_side(rng, [life() for _ in range(c.n(12, 120))])
  for _ in range(c.n(2, 10)):   # from files
    d = tempfile.mkdtemp(prefix='shards_', dir=kit.workdir())
    try:
      lens = [rng.choice([1, 1, 2, 3]) for _ in range(200)]
      data, at, held, seed = dataset(sum(lens)), 0, rng.choice([10, 25]), rng.randrange(2**31)
      for i, k in enumerate(lens):
        with open(os.path.join(d, f'batch{i:04d}.pickle'), 'wb') as f:
          pickle.dump(rng.choice([np.asarray, jnp.asarray])(data[at:at + k]), f)
        at += k
      r = Run()
      for where in (d, None):   # from the files, and the same in memory
        if r.new(len(data), held, seed, data, shards=where):
          r.batch(20)
          r.eval()
          r.batch(len(data) - held)
      ts.append(r.t)
    finally:
      shutil.rmtree(d, ignore_errors=True)
  for n, held, size, reps in ((900, 100, 1, 300), (300, 20, 2, 300), (15, 4, 3, c.n(400, 4000)), (40, 10, 1, c.n(400, 4000)), (9, 2, 7, c.n(300, 3000))):
    data = dataset(n)
    res = D.DatasetWindFieldReservoir(jnp.asarray(data), held, rng.randrange(2**31))
    got = [look(res.get_batch(size), data)['rows'] for _ in range(reps)]
    m = n - held
    ts.append([dict(op='begin'), dict(op='law', size=size, batches=reps, draws=reps * size,
                                      counts=[sum(b.count(i) for b in got) for i in range(m)],
                                      first=[sum(b[:1] == [i] for b in got) for i in range(m)],
                                      distinct=len(set(map(tuple, got[:300]))))])
  c.judge('T_Reservoir', ts, chunks=4)
  c.cov['executions'] = dict(histories=len(ts), walks=len(walks))
