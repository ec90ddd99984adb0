"""C30: MarcoPolo exploration."""
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the alternation (spec/MarcoPolo.tla); TLC checks machine and formula against each other '
             '(MC_MarcoPolo) and enumerates histories of episodes which are replayed through the real wrapper; every '
             'call, and what reaches the exploratory agent, is judged by TLC (T_MarcoPolo)')
NOTE = ('Whether an episode explores is drawn from the wrapper\'s own random stream; its frequency is checked '
        'statistically (six standard deviations).')
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxLen = {len}
  MaxEps = {eps}
  Cuts <- CutsDef
INVARIANTS MachineIsFormula PhaseBounds LearnerFirst Share NeverWithout EmitInit
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''


def explorer(rng, calls, real):
  import numpy as np
  from balloon_learning_environment.agents import agent, random_walk_agent

  class Stub(agent.Agent):
    def begin_episode(self, observation):
      return rng.randrange(3)
    def step(self, reward, observation):
      return rng.randrange(3)
    def end_episode(self, reward, terminal=True):
      pass

  base = random_walk_agent.RandomWalkAgent if real else Stub

  class Rec(base):

    def __init__(self, num_actions, observation_shape, *a, **k):
      super().__init__(num_actions, observation_shape, *a, **k)
      calls.append(dict(op='made', na=kit.enc(num_actions), shape=kit.enc(list(np.shape(np.zeros(observation_shape))))))

    def begin_episode(self, observation):
      a = base.begin_episode(self, observation)
      calls.append(dict(op='begin', obs=int(observation[1]), a=int(a)))
      return a

    def step(self, reward, observation):
      a = base.step(self, reward, observation)
      calls.append(dict(op='step', r=kit.flt(reward), obs=int(observation[1]), a=int(a)))
      return a

    def end_episode(self, reward, terminal=True):
      calls.append(dict(op='end', r=kit.flt(reward), t=bool(terminal)))

  return Rec


class Wrapper:

  def __init__(self, c, p, seed, real=False, by_gin=False):
    import gin
    import numpy as np
    from balloon_learning_environment.agents import marco_polo_exploration as mp
    self.np, self.rng, self.calls, self.log, self.n = np, c.rng, [], [], 0
    self.real = real
    ctor = explorer(c.rng, self.calls, real)
    if by_gin:
      gin.clear_config()
      gin.bind_parameter('MarcoPoloExploration.exploratory_episode_probability', p)
      gin.bind_parameter('MarcoPoloExploration.exploratory_agent_constructor', ctor)
      make = lambda: mp.MarcoPoloExploration(3, (2,), seed=seed)
    else:
      make = lambda: mp.MarcoPoloExploration(3, (2,), p, ctor, seed)
    self.e, how = kit.call(make)
    self.log.append(dict(op='new', p=kit.flt(p), how=how, calls=list(self.calls)))
    self.calls.clear()

  def _obs(self):
    self.n += 1
    o = self.np.zeros(1099 if self.real else 2, self.np.float32)
    o[:2] = self.rng.random(), self.n
    return o

  def _out(self, e, out, how):
    e.update(out=int(out) if how == 'ok' else -1, how=how, calls=list(self.calls))
    self.calls.clear()
    self.log.append(e)

  def begin(self):
    o, a = self._obs(), self.rng.randrange(3)
    self._out(dict(op='begin', obs=self.n, a=a), *kit.call(self.e.begin_episode, o, a))

  def step(self):
    o, a = self._obs(), self.rng.randrange(3)
    r = self.rng.randrange(-8, 9) / 4
    self._out(dict(op='step', obs=self.n, a=a, r=kit.flt(r)), *kit.call(self.e.step, r, o, a))


def chance(c, p, n, seed):
  """How often episodes explore, and again with the same seed."""
  a, b = Wrapper(c, p, seed), Wrapper(c, p, seed)
  seqs = []
  for w in (a, b):
    seq = []
    for _ in range(n):
      w.begin()
      for _ in range(80):
        w.step()
      seq.append(len(w.log[-1]['calls']) > 0)
    seqs.append(seq)
  a.log.append(dict(op='chance', first=seqs[0], again=seqs[1]))
  return a.log


def run(c):
  ts = []
  r = c.model('MC_MarcoPolo', CFG.format(len=c.n(245, 500), eps=2), workers=1)
  tours = kit.Graph(r).tour(c.rng, 600)
  c.rng.shuffle(tours)
  players = []

  def play(path, p):
    w = Wrapper(c, p, c.rng.randrange(10**6), by_gin=c.rng.random() < 0.3)
    ts.append(w.log)
    for a, _t in path:
      yield
      getattr(w, a['op'])()

  for _, path in tours[:c.n(20, 400)]:
    for p in (0.0, 1.0):
      # The model chooses whether an episode explores; with the probability
      # fixed at 0 or 1 the episodes of the other kind are played as well.
      players.append(play(path, p))
  kit.side_by_side(c.rng, players)
  for _ in range(c.n(6, 60)):   # long random histories, drawn episodes
    w = Wrapper(c, c.rng.choice([0.5, 0.8, 0.3]), c.rng.choice([0, 1, c.rng.randrange(2**31)]),
                real=_ % 3 == 0)
    for _ in range(c.n(4, 8)):
      w.begin()
      for _ in range(c.rng.choice([3, 79, 80, 100, 119, 121, 300, 960])):
        w.step()
    ts.append(w.log)
  for p in c.n([0.25, 0.8], [0.1, 0.25, 0.5, 0.8, 0.95]):
    ts.append(chance(c, p, c.n(60, 300), c.rng.randrange(10**6)))
  from balloon_learning_environment.agents import exploration
  import numpy as np
  plain = [dict(op='new', p='0', how='ok', calls=[dict(op='made', na=3, shape=[2])])]
  e = exploration.Exploration(3, (2,))
  for k in range(300):
    a = c.rng.randrange(3)
    o = np.zeros(2, np.float32)
    out = e.begin_episode(o, a) if k % 50 == 0 else e.step(0.5, o, a)
    plain.append(dict(op='plain', a=a, out=int(out)))
  ts.append(plain)
  c.judge('T_MarcoPolo', ts)
