"""C11: seeded episodes are reproducible."""
import json, os, random, subprocess, sys, tempfile
import kit, flightdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of seeding and resets of several environments (spec/Flights.tla); TLC checks it and enumerates '
             'interleaved histories (MC_Flights) which are replayed with real environments, in this and in a second '
             'process; TLC judges that the same identity and actions always look the same and that different episodes '
             'differ (T_Flights)')
NOTE = ('The decoder of the generative wind field is not shipped: one with random weights stands in. States are compared '
        'to 1e-9, observations by fixed combinations of all entries.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  Envs = {{1, 2}}
  Seeds = {seeds}
  MaxSplit = {split}
  MaxSteps = {steps}
  Slots = {{}}
PROPERTIES Isolation SeedDecides SeedsThenReset Progress SlotsKeep SavingIsPure
INVARIANTS EmitInit
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''


def follow(w, path, seeds):
  for a, _ in path:
    op, e = a['op'], a['e']
    if w.rng.random() < 0.2:
      w.world_noise()
    if op in ('seed', 'reseed'):
      getattr(w, op)(e, seeds[a['s']])
    elif op == 'reset':
      w.reset(e)
    else:
      w.step(e)
    if w.rng.random() < 0.06:
      w.perturb(e)
      w.reseed(e, w.rng.choice(list(seeds.values())))


def start(rng, cfg, seed, base=0):
  w = flightdrv.World(rng, cfg, base)
  w.new(1, seed)
  w.new(2, seed)
  return w


def wander(w, n, seeds):
  """Random histories over a few seeds, some environments unseeded."""
  rng = w.rng
  for _ in range(n):
    e = rng.choice(list(w.env) + [9]) if len(w.env) < 4 else rng.choice(list(w.env))
    k = rng.random()
    if e == 9 or k < 0.02:
      w.new(rng.randrange(1, 5), rng.choice(seeds + [None]))
    elif k < 0.10:
      w.reseed(e, rng.choice(seeds))
    elif k < 0.14:
      w.seed(e, rng.choice(seeds))
    elif k < 0.22:
      w.reset(e)
    elif k < 0.25:
      w.perturb(e)
      w.reseed(e, rng.choice(seeds))
    elif k < 0.28:
      w.poke(e, rng.choice(['drain', 'far']))
    else:
      for _ in range(rng.randrange(1, 5)):
        if not w.step(e):
          break


def arenas(rng, cfg, n):
  """Arenas take integers, numpy integers and keys."""
  w = flightdrv.ArenaWorld(rng, cfg)
  seeds = rng.sample(range(2**31), 2) + [rng.randrange(4)]
  w.new(1, seeds[0])
  w.new(2)
  for _ in range(n):
    e, k = rng.choice([1, 2]), rng.random()
    if k < 0.25:
      w.reseed(e, rng.choice(seeds))
    elif k < 0.32:
      w.reset(e)
    elif k < 0.37:
      w.new(e, rng.choice(seeds))
    else:
      for _ in range(rng.randrange(1, 4)):
        if not w.step(e):
          break
  return w.log


def elsewhere(c, jobs):
  """The same seeds in another process; returns the events of each job."""
  d = tempfile.mkdtemp(prefix='flights_', dir=kit.workdir())
  with open(os.path.join(d, 'in.json'), 'w') as f:
    json.dump(jobs, f)
  env = dict(os.environ, PYTHONHASHSEED=str(c.rng.randrange(1, 1000)))
  code = (f"import sys; sys.path.insert(0, {os.path.dirname(os.path.abspath(__file__))!r}); import kit; kit.setup_repo(); "
          f"import c11; c11.child({os.path.join(d, 'in.json')!r}, {os.path.join(d, 'out.json')!r})")
  p = subprocess.Popen([sys.executable, '-W', 'ignore', '-c', code], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)

  def result():
    out, err = p.communicate(timeout=800)
    if p.returncode:
      raise RuntimeError(err[-2000:])
    with open(os.path.join(d, 'out.json')) as f:
      return json.load(f)
  return result


def child(fin, fout):
  out = []
  with open(fin) as f:
    jobs = json.load(f)
  for j in jobs:
    w = flightdrv.World(random.Random(j['r']), j['cfg'], base=100)
    w.plan = j['plan']
    w.rng.random = lambda: 0.5   # never off the plan
    w.new(1, j['seed'])
    for _ in range(j['episodes']):
      for _ in range(j['steps']):
        if not w.step(1):
          break
      w.reset(1)
    out.append(w.log)
  with open(fout, 'w') as f:
    json.dump(out, f)


def run(c):
  rng = c.rng
  g = kit.Graph(c.model('MC_Flights', CFG.format(seeds=c.n('{1}', '{1, 2}'), split=c.n(2, 1), steps=1), workers=1))
  paths = [p for _, p in g.tour(rng, max_len=c.n(60, 80))]
  cfgs = ['static', 'gen', 'full']
  # The jobs of the other process are known beforehand.
  jobs = []
  for i in range(c.n(4, 24)):
    jobs.append(dict(cfg=cfgs[i % 3], seed=rng.randrange(2**31), r=i, plan=[rng.randrange(3) for _ in range(40)],
                     episodes=2, steps=rng.randrange(3, 12)))
  pending = elsewhere(c, jobs)
  traces = []
  for i, p in enumerate(paths):
    a, b = rng.sample(range(2**31), 2)
    if rng.random() < 0.3:
      a = rng.randrange(3)
    w = start(rng, cfgs[i % 3], a)
    follow(w, p, {1: a, 2: b})
    traces.append(w.log)
  for i in range(c.n(6, 60)):
    seeds = rng.sample(range(2**31), 2) + [rng.randrange(5)]
    w = start(rng, cfgs[i % 3], seeds[0])
    wander(w, c.n(40, 80), seeds)
    traces.append(w.log)
  for i in range(c.n(3, 20)):
    traces.append(arenas(rng, cfgs[i % 3], c.n(30, 60)))
  for i, j in enumerate(jobs):
    w = flightdrv.World(rng, j['cfg'])
    w.plan = j['plan']
    w.new(1, None)
    w.perturb(1)
    w.reseed(1, j['seed'])
    for _ in range(j['episodes']):
      for _ in range(j['steps']):
        if not w.step(1, w.plan[w.at[1]]):
          break
      w.reset(1)
    j['log'] = w.log
  for j, log in zip(jobs, pending()):
    traces.append(j['log'] + log)
  c.judge('T_Flights', traces, chunks=c.n(6, 8))
  n = sum(map(len, traces))
  ids = sum(e['op'] in ('new', 'reseed', 'reset') for t in traces for e in t)
  c.cov['executions'] = dict(histories=len(traces), events=n, resets=ids, other_process=len(jobs))
  c.cov['model'] = dict(nodes=len(g.nodes), edges=g.n_edges, paths=len(paths))
