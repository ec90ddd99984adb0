"""C31: the random-walk agent."""
import copy
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ definition of the control rule and the target process (spec/RandomWalk.tla); TLC checks convergence '
             '(MC_RandomWalk); the hidden target of the real agent is recovered at every step from the answers of '
             'copies to different pressures, and rule, range and distribution are judged by TLC (T_RandomWalk)')
NOTE = 'The distribution of the target is checked statistically (six standard deviations).'
CFG = '''SPECIFICATION Spec
CONSTANTS
  Grid <- GridDef
  Moves = {m}
INVARIANTS StaysInGrid StayIsNear Recover
PROPERTIES TowardsTarget Settles
CHECK_DEADLOCK FALSE
'''


class Probe:

  def __init__(self, c, seed):
    import numpy as np
    from balloon_learning_environment.agents import random_walk_agent
    from balloon_learning_environment.env import features
    from balloon_learning_environment.env.balloon import control
    self.np, self.rng, self.features, self.cmd = np, c.rng, features, control.AltitudeControlCommand
    self.agent = random_walk_agent.RandomWalkAgent(3, (1099,), **({} if seed is None else dict(seed=seed)))
    self.base = np.array([c.rng.random() for _ in range(1099)], np.float32)

  def obs(self, p):
    # Everything but the pressure is irrelevant.
    o = self.np.roll(self.base, self.rng.randrange(1099))
    o[0] = (p - 5000.0) / 9000.0
    return o

  def ask(self, agent, op, p):
    o = self.obs(p)
    p = kit.flt(self.features.NamedPerciatelliFeatures(o).balloon_pressure)
    a, how = (kit.call(agent.begin_episode, o) if op == 'begin'
              else kit.call(agent.step, self.rng.choice([0.0, 1.0, -3.0]), o))
    ok = how == 'ok' and int(a) in (0, 1, 2)
    return dict(p=p, a=self.cmd(int(a)).name if ok else 'bad'), how

  def turn(self, op, lo, hi):
    """Asks copies of the agent, then the agent itself."""
    probes, hows = [], []
    def ask(p):
      e, how = self.ask(copy.deepcopy(self.agent), op, p)
      probes.append(e)
      hows.append(how)
      return e['a']
    for _ in range(3):   # outside any target
      if ask(lo) == 'DOWN' and ask(hi) == 'UP':
        break
      lo, hi = lo - 2000, hi + 2000
    while hi - lo > 0.3:   # where does UP begin
      mid = (lo + hi) / 2
      lo, hi = (lo, mid) if ask(mid) == 'UP' else (mid, hi)
    t = (lo + hi) / 2 - 100   # the rule's other edge, and its inside
    for d in (-200, -100.2, -99.8, -50, 0, 50, 99.8, 100.2, 300):
      ask(t + d)
    e, how = self.ask(self.agent, op, t + self.rng.uniform(-250, 250))
    probes.append(e)
    hows.append(how)
    self.t = t
    return dict(op=op, probes=probes, how='ok' if all(h == 'ok' for h in hows) else 'failed')


def play(c, ts, seed, lens, draws, moves, jumps):
  pr = Probe(c, seed)
  log = []
  ts.append(log)
  for i, n in enumerate(lens):
    yield
    old = pr.t if i else None
    log.append(pr.turn('begin', 5500.0, 12500.0))
    draws.append(pr.t)
    if old is not None:
      jumps.append(pr.t - old)
    for k in range(n):
      yield
      before = pr.t
      log.append(pr.turn('step', before - 300, before + 300))
      moves.append(pr.t - before)
    if c.rng.random() < 0.6:
      pr.agent.end_episode(1.0, c.rng.random() < 0.5)


def again(c, n):
  """Whole episodes, twice with one seed and once with another."""
  seed = c.rng.randrange(2**31)
  ps = [c.rng.uniform(6000, 12000) for _ in range(n)]
  out = []
  for s in (seed, seed, seed + 1):
    pr = Probe(c, s)
    out.append([pr.ask(pr.agent, 'begin' if k % 50 == 0 else 'step', p)[0]['a'] for k, p in enumerate(ps)])
  return [dict(op='again', a=out[0], b=out[1], c=out[2])]


def run(c):
  c.model('MC_RandomWalk', CFG.format(m=c.n(1, 3)))
  draws, moves, jumps, ts, players = [], [], [], [], []
  plan = c.n([[150], [3, 0, 60], [40, 2, 60]], [[960], [200, 5, 100], [960, 1, 0, 50], [400, 400]] * 2)
  for lens in plan:
    players.append(play(c, ts, c.rng.choice([0, c.rng.randrange(2**31)]), lens, draws, moves, jumps))
  for _ in range(c.n(40, 300)):
    players.append(play(c, ts, c.rng.randrange(2**31), [2, 0, 1], draws, moves, jumps))
  players.append(play(c, ts, None, [2, 3], [], [], []))   # seeded by the clock
  kit.side_by_side(c.rng, players)
  ts.append([dict(op='moves', ds=[kit.flt(x) for x in moves]), dict(op='draws', ts=[kit.flt(x) for x in draws]),
             dict(op='jumps', ds=[kit.flt(x) for x in jumps])])
  for _ in range(c.n(2, 20)):
    ts.append(again(c, 150))
  c.judge('T_RandomWalk', ts)
