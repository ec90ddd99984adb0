"""C32: the station-seeking controller."""
import kit, featdrv, simdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ definition of the score and the choice of a level (spec/StationSeeker.tla); TLC checks monotonicity '
             'and bounds on a grid (MC_StationSeeker); decisions of the real controller on synthetic observations and '
             'on those of the simulator are recomputed and judged by TLC (T_StationSeeker)')
NOTE = ('Levels whose scores differ by less than 4e-6 (observations are single precision) count as equally good.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  Steps = {n}
INVARIANTS Bounded BetterBearing LessWind Nearer UnknownIsHalf
CHECK_DEADLOCK FALSE
'''


def synthetic(rng):
  """A wind column: reachable levels lo..hi around the balloon's, the rest invalid."""
  import numpy as np
  o = np.zeros(1099, np.float32)
  o[:16] = [rng.random() for _ in range(16)]
  o[7] = rng.choice([0.0, rng.random(), rng.random() ** 3, 0.123, rng.uniform(0.4, 0.8), 0.9999])
  lo, hi = sorted(rng.sample(range(361), 2)) if rng.random() < 0.5 else (rng.randint(90, 180), rng.randint(180, 270))
  if rng.random() < 0.1:
    lo = hi = rng.choice([0, 179, 180, 181, 360, lo])
  o[16:] = np.tile(np.array([0.0, 1.0, 1.0], np.float32), 361)
  kind = rng.choice(['random', 'random', 'flat', 'one', 'two', 'extreme', 'confident', 'holes'])
  flat = [rng.random(), rng.random(), rng.random() * 0.9]
  star = rng.randint(lo, hi)
  for l in range(lo, hi + 1):
    w = [rng.random(), rng.random(), rng.random() * 0.95]
    if kind == 'flat':
      w = list(flat)
    elif kind == 'one':
      w = [0.02, 0.0, 0.1] if l == star else [0.02, 0.9, 0.6]
    elif kind == 'two':   # as good above as below
      w = [0.1, 0.05, 0.2] if abs(l - 180) == abs(star - 180) else [0.1, 0.8, 0.5]
    elif kind == 'extreme':
      w = [rng.choice([0.0, 1.0]), rng.choice([0.0, 1.0]), rng.choice([0.0, 0.9999])]
    elif kind == 'confident':
      w = [0.0, rng.random(), rng.random() * 0.5]
    elif kind == 'holes' and rng.random() < 0.4 and l != star:
      continue
    o[16 + 3 * l:19 + 3 * l] = w
  return o if rng.random() < 0.8 else o.astype(np.float64)


def event(rng, o, agent, fresh, with_scores):
  import numpy as np
  F = kit.flt
  n = np.asarray(o)
  ws = n[16:].reshape(-1, 3)
  ls = [i for i in range(len(ws)) if not (ws[i][0] == 0 and ws[i][1] == 1 and ws[i][2] == 1)]
  keep = n.copy()
  if rng.random() < 0.3:
    a, how = kit.call(agent.begin_episode, o)
  else:
    a, how = kit.call(agent.step, rng.random(), o)
  b, _ = kit.call(fresh.begin_episode, keep)
  if rng.random() < 0.1:
    kit.call(agent.end_episode, 0.0, rng.random() < 0.5)
  name = {0: 'DOWN', 1: 'STAY', 2: 'UP'}
  e = dict(op='choose', how=how if np.array_equal(keep, n) else 'changed its input', mid=len(ws) // 2, ls=ls,
           a=name.get(a, 'bad'), again=name.get(b, 'bad'), d=F(n[7]), level=-1,
           ws=[dict(u=F(ws[i][0]), b=F(ws[i][1]), m=F(ws[i][2])) for i in ls])
  if with_scores:
    from balloon_learning_environment.env import features
    r, h = kit.call(lambda: agent.find_best_pressure_level(features.NamedPerciatelliFeatures(o)))
    if h == 'ok':
      level, sc = r
      e.update(level=int(level), scores=[F(sc[i]) for i in ls],
               rest=F(float(np.abs(np.delete(sc, ls)).sum())))
  return e


def run(c):
  from balloon_learning_environment.agents import station_seeker_agent as ss
  c.model('MC_StationSeeker', CFG.format(n=c.n(4, 8)))
  new = lambda: ss.StationSeekerAgent(3, (1099,))
  ts = []
  for _ in range(8):
    a, t, o = new(), [], None
    for _ in range(c.n(20, 250)):
      x = synthetic(c.rng)
      if o is not None and c.rng.random() < 0.4:   # the last observation, but for its winds, its distance or the rest
        part = c.rng.choice([slice(16, None), slice(0, 16), slice(7, 8), slice(1, 7)])
        y = o.copy()
        y[part] = x[part]
        x = y
      o = x.copy()
      t.append(event(c.rng, x, a, new(), c.rng.random() < 0.5))
    ts.append(t)
  real = []
  a = new()
  for _ in range(c.n(6, 100)):   # balloons anywhere
    b, atm = featdrv.random_state(c.rng)
    _, _, f, exc = featdrv.features_of(c.rng, b, atm)
    if exc == 'ok':
      real.append(event(c.rng, f, a, new(), True))
  ts.append(real)
  # Flown by the controller.
  d = featdrv.env_driver(c.rng)
  for _ in range(c.n(1, 4)):
    o, a, t = d.env.reset(seed=c.rng.randrange(2**31)), new(), []
    for k in range(c.n(15, 120)):
      t.append(event(c.rng, o, a, new(), k % 5 == 0))
      r, how = kit.call(d.env.step, {'DOWN': 0, 'STAY': 1, 'UP': 2}.get(t[-1]['a'], 1))
      if how != 'ok' or r[2]:
        break
      o = r[0]
    ts.append(t)
  c.judge('T_StationSeeker', ts)
