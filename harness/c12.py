"""C12: saving and restoring simulator states."""
import kit, flightdrv, c11
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of environments whose states are saved and restored (spec/Flights.tla); TLC checks it and '
             'enumerates histories of steps, resets, saves and restores (MC_Flights) which are replayed with real '
             'environments and arenas; TLC judges that a restored flight continues exactly as the original (T_Flights)')
NOTE = ('States are saved with copy.deepcopy or pickle. Observations after a restore are not compared: the code documents '
        'that the feature constructor is not restored.')
CLAUSES = dict(restore='restored-state-is-the-saved-one', mix='restored-state-has-the-parts-given', save='saving-has-no-side-effects', step='restored-flight-continues-the-same')


def follow(w, path, seeds):
  for a, _ in path:
    op, e = a['op'], a['e']
    if op in ('seed', 'reseed'):
      getattr(w, op)(e, seeds[a['s']])
    elif op == 'reset':
      w.reset(e)
    elif op == 'step':
      w.step(e, w.plan[w.at[e]] if w.rng.random() < 0.9 else None)
    else:
      getattr(w, op)(e, a['i'])
    if op == 'restore':   # and on it goes
      for _ in range(w.rng.randrange(3)):
        w.save(e, 99)
        if not w.step(e):
          break
      if w.rng.random() < 0.5:
        w.restore(e, a['i'])


def wander(w, n, seeds):
  rng = w.rng
  for _ in range(n):
    e, k = rng.choice(list(w.env)), rng.random()
    if k < 0.05:
      w.reseed(e, rng.choice(seeds))
    elif k < 0.10:
      w.reset(e)
    elif k < 0.25:
      w.save(e, rng.randrange(4))
    elif k < 0.38 and w.slots:
      w.restore(e, rng.choice(list(w.slots)))
    elif k < 0.48 and w.slots:
      i = rng.choice(list(w.slots))
      own = rng.choice([(False, True), (False, True), (True, False), (True, True)])
      for _ in range(rng.randrange(2, 4)):
        w.mix(e, i, *own)
        for _ in range(rng.randrange(3)):
          if not w.step(e):
            break
    elif k < 0.55:
      kind = rng.choice(['drain', 'strain', 'far', 'free', 'low', 'low', 'dive'])
      w.poke(e, kind)
      if kind in ('low', 'dive') and w.step(e):
        if kind == 'low' and rng.random() < 0.7:
          w.poke(e, 'refill')
        w.save(e, rng.randrange(4))
    else:
      for _ in range(rng.randrange(1, 8)):
        if not w.step(e):
          break


def resume(rng, cfg, c, arena):
  """A long flight with saves; each is resumed elsewhere to the same end."""
  w = (flightdrv.ArenaWorld if arena else flightdrv.World)(rng, cfg)
  w.clauses = CLAUSES
  s = rng.randrange(2**31)
  w.new(1, s)
  w.new(2, rng.randrange(2**31))
  n = rng.randrange(10, c.n(40, 200))
  points = sorted(rng.sample(range(n), 3))
  acts = [rng.randrange(3) for _ in range(n)]
  dr, kind = rng.choice([None, rng.randrange(n)]), rng.choice(['drain', 'free', 'far'])
  nap = rng.choice([None, points[0] - rng.randrange(1, 4)])
  def fly(e, i):
    if i == nap:
      w.poke(e, 'low')
    if nap is not None and i == nap + 1:
      w.poke(e, 'refill')
    if i == dr:
      w.poke(e, kind)
    return w.step(e, acts[i])
  for i in range(n):
    if i in points:
      w.save(1, points.index(i))
    if not fly(1, i):
      break
  end = i
  w.save(1, 7)
  for k, p in enumerate(points):
    if p > end:
      continue
    for e in rng.sample([1, 2], rng.randrange(1, 3)):
      w.restore(e, k)
      # The other flies on meanwhile.
      for i in range(p, end + 1):
        if rng.random() < 0.1:
          w.step(3 - e) if rng.random() < 0.7 else w.reset(3 - e)
        if not fly(e, i):
          break
  w.restore(2, 7)
  w.step(2)
  w.reset(2)
  w.reseed(1, s)
  for i in range(min(5, n)):
    fly(1, i)
  return w.log


def run(c):
  rng = c.rng
  cfg = c11.CFG.replace('Slots = {{}}', 'Slots = {{1}}').format(seeds='{1}', split=1, steps=c.n(1, 2))
  g = kit.Graph(c.model('MC_Flights', cfg, workers=1))
  paths = [p for _, p in g.tour(rng, max_len=80)]
  rng.shuffle(paths)
  cfgs = ['gen', 'static', 'gen', 'full']
  traces = []
  for i, p in enumerate(paths[:c.n(16, 60)]):
    w = (flightdrv.ArenaWorld if i % 3 == 2 and not any(a['op'] in ('seed', 'reset') for a, _ in p) else flightdrv.World)(
        rng, cfgs[i % 4])
    w.clauses = CLAUSES
    a = rng.randrange(2**31)
    w.new(1, a)
    w.new(2, a)
    follow(w, p, {1: a})
    traces.append(w.log)
  for i in range(c.n(6, 60)):
    w = (flightdrv.World, flightdrv.ArenaWorld)[i % 2](rng, cfgs[i % 4])
    w.clauses = CLAUSES
    seeds = rng.sample(range(2**31), 2)
    for e in (1, 2, 3):
      w.new(e, rng.choice(seeds))
    wander(w, c.n(40, 80), seeds)
    traces.append(w.log)
  for i in range(c.n(6, 60)):
    traces.append(resume(rng, cfgs[i % 4], c, i % 2))
  c.judge('T_Flights', traces, chunks=c.n(6, 8))
  ops = {}
  for t in traces:
    for e in t:
      ops[e['op']] = ops.get(e['op'], 0) + 1
  c.cov['executions'] = dict(histories=len(traces), events=sum(map(len, traces)), by_operation=ops)
  c.cov['model'] = dict(nodes=len(g.nodes), edges=g.n_edges, paths=len(paths))
