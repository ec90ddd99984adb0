"""C33: learning agents."""
import hashlib, shutil, tempfile
import kit, traindrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of a learning agent (spec/Learner.tla); TLC checks it and enumerates histories of training and '
             'evaluation episodes, saves and restarts (MC_Learner) which are replayed with the real DQN and quantile '
             'agents; stored transitions, parameter, target and optimiser changes, choices and exploration calls are '
             'judged by TLC (T_Learner), which also recomputes the network outputs and the SARSA step of the MLP agent')
NOTE = ('Small networks and observations; the gradient of the DQN and quantile losses is taken from '
        'Dopamine\'s own agents, which run beside them on the same experience.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxSteps = {s}
  MaxEps = {e}
  Hist = 3
  Update = 2
  Target = 3
INVARIANTS Counts NoEarlyTraining TrainsInTime EmitInit
PROPERTIES FrozenInEval
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''


def dig(tree):
  import jax, numpy as np
  h = hashlib.sha1()
  for leaf in jax.tree_util.tree_leaves(tree):
    h.update(np.asarray(leaf).tobytes())
  return h.hexdigest()[:12]


def wrapper(base, rng, calls, on):
  """An exploration wrapper whose calls are recorded."""

  class Rec(base):

    def _note(self, op, obs, r, a, out):
      if on:
        calls.append(dict(op=op, obs=int(obs[0]), r=kit.flt(r), a=int(a), out=int(out)))
      return out

    def begin_episode(self, observation, action):
      return self._note('begin', observation, 0, action, base.begin_episode(self, observation, action))

    def step(self, reward, observation, action):
      return self._note('step', observation, reward, action, base.step(self, reward, observation, action))

  return Rec


def explorations(rng):
  from balloon_learning_environment.agents import agent, exploration, marco_polo_exploration as mp

  class Swap(exploration.Exploration):   # another action, now and then
    def begin_episode(self, observation, action):
      return rng.randrange(3) if rng.random() < 0.7 else action
    def step(self, reward, observation, action):
      return rng.randrange(3) if rng.random() < 0.7 else action

  class Pick(agent.Agent):
    def begin_episode(self, observation):
      return rng.randrange(3)
    def step(self, reward, observation):
      return rng.randrange(3)
    def end_episode(self, reward, terminal=True):
      pass

  class Marco(mp.MarcoPoloExploration):
    def __init__(self, num_actions, observation_shape):
      super().__init__(num_actions, observation_shape, 1.0, Pick, 7)

  return dict(swap=Swap, none=exploration.Exploration, marco=Marco)


class Agent:
  """One real agent and the record of what happens to it."""

  def __init__(self, c, kind, cfg, greedy, explore, eval_greedy=True):
    import numpy as np
    self.c, self.rng, self.kind, self.np, self.greedy = c, c.rng, kind, np, greedy
    self.calls, self.count, self.it = [], 0, 0
    self.eval_greedy = eval_greedy
    self.explore = wrapper(explorations(c.rng)[explore], c.rng, self.calls, True)
    self.dir = tempfile.mkdtemp(prefix='learn_', dir=kit.workdir())
    self.a = self.make()
    self.other = traindrv.make_agent(kind, seed=2) if c.rng.random() < 0.4 else None
    self.log = [dict(op='new', cfg=cfg, **self.state())]

  def make(self):
    self.np.random.seed(self.rng.randrange(2**31))
    return traindrv.make_agent(self.kind, seed=self.rng.randrange(1000), explore=self.explore)

  def state(self):
    a = self.a
    return dict(n=int(a._replay.add_count), steps=int(a.training_steps), p=dig(a.online_params),
                t=dig(a.target_network_params), o=dig(a.optimizer_state), store=traindrv.replay_digest(a))

  def added(self, before):
    r = self.a._replay
    s, n = r._store, int(r.add_count)
    cap = len(s['action'])
    return [dict(o=int(s['observation'][i % cap].reshape(-1)[0]), a=int(s['action'][i % cap]),
                 r=kit.flt(s['reward'][i % cap]), t=bool(s['terminal'][i % cap])) for i in range(before, n)]

  def obs(self):
    self.count += 1
    return self.np.array([self.count, self.rng.randrange(-8, 9) / 4], self.np.float32)

  def q(self, o):
    out = self.a.network_def.apply(self.a.online_params, o)
    return [kit.flt(v) for v in self.np.asarray(out.q_values).reshape(-1)]

  def neighbour(self):
    """Another agent of the kind leads its own life meanwhile."""
    if self.other is None or self.rng.random() > 0.3:
      return
    x = self.rng.random()
    if x < 0.7:
      self.other.set_mode(self.rng.choice(['train', 'eval']))
    else:
      self.other.begin_episode(self.np.array([0, self.rng.randrange(-8, 9) / 4], self.np.float32))

  def act(self, op):
    self.neighbour()
    a, o, r = self.a, self.obs(), self.rng.randrange(-8, 9) / 4
    n = int(a._replay.add_count)
    self.calls.clear()
    out, how = kit.call(a.begin_episode, o) if op == 'begin' else kit.call(a.step, r, o)
    self.log.append(dict(op=op, obs=self.count, r=kit.flt(r), how=how, out=int(out) if how == 'ok' else -1,
                         calls=list(self.calls), q=self.q(o), wraps=self.kind == 'quantile', greedy=self.greedy, egreedy=self.eval_greedy,
                         added=self.added(n), **self.state()))

  def begin(self, a=None):
    self.act('begin')

  def step(self, a=None):
    self.act('step')

  def end(self, a):
    # Dopamine cannot sample from truncated one-step episodes alone.
    if not self.a._replay._store['terminal'][:int(self.a._replay.add_count)].any():
      a = dict(a, t=True)
    n, r = int(self.a._replay.add_count), self.rng.randrange(-8, 9) / 4
    if a['t'] and self.rng.random() < 0.3:
      _, how = kit.call(self.a.end_episode, r)
    else:
      _, how = kit.call(self.a.end_episode, r, a['t'])
    self.log.append(dict(op='end', r=kit.flt(r), term=a['t'], how=how, added=self.added(n), **self.state()))

  def mode(self, a):
    from balloon_learning_environment.agents import agent
    m = a['m'] if self.rng.random() < 0.5 else agent.AgentMode(a['m'])
    _, how = kit.call(self.a.set_mode, m)
    self.log.append(dict(op='mode', m=a['m'], how=how, **self.state()))

  def save(self, a=None):
    _, how = kit.call(self.a.save_checkpoint, self.dir, self.it)
    self.it += 1
    self.log.append(dict(op='save', how=how, **self.state()))

  def restart(self, a=None):
    self.a = self.make()
    if self.rng.random() < 0.5:
      _, how = kit.call(self.a.load_checkpoint, self.dir, self.it - 1)
    else:
      got, how = kit.call(self.a.reload_latest_checkpoint, self.dir)
      how = how if how != 'ok' or got == self.it - 1 else f'reloaded {got}'
    self.log.append(dict(op='restart', how=how, **self.state()))

  def done(self):
    shutil.rmtree(self.dir, ignore_errors=True)
    return self.log


def random_history(rng, agent, n, length=12):
  agent.begin()
  inn = True
  for _ in range(n):
    if inn:
      if rng.random() < 1.0 / length:
        agent.end(dict(t=rng.random() < 0.5))
        inn = False
      elif rng.random() < 0.08:
        agent.mode(dict(m=rng.choice(['train', 'eval'])))
      else:
        agent.step()
    else:
      x = rng.random()
      if x < 0.25:
        agent.mode(dict(m=rng.choice(['train', 'eval'])))
      elif x < 0.4:
        agent.save()
      elif x < 0.5 and agent.it:
        agent.restart()
      else:
        agent.begin()
        inn = True


class Writer:
  """Records what an agent reports."""
  def __init__(self):
    self.got = []
  def scalar(self, tag, value, step):
    self.got.append((tag, kit.flt(value), int(step)))
  def flush(self):
    pass


class Reference(Writer):
  """Records what Dopamine's own agent reports through tf.summary."""
  def as_default(self):
    import contextlib, tensorflow as tf
    @contextlib.contextmanager
    def swapped():
      real, tf.summary.scalar = tf.summary.scalar, lambda tag, v, step=None: self.scalar(tag, float(v), step)
      try:
        yield
      finally:
        tf.summary.scalar = real
    return swapped()


def twin(c, kind, cfg, n):
  """The agent beside the algorithm it wraps, on the same life."""
  import random, jax, jax.numpy as jnp, numpy as np
  from balloon_learning_environment.agents import networks
  from dopamine.jax.agents.dqn import dqn_agent as dop
  from dopamine.jax.agents.quantile import quantile_agent as doq
  rng, F = c.rng, kit.flt
  seed, s0 = rng.randrange(1000), rng.randrange(2**31)
  def plain():
    if kind == 'dqn':
      import functools
      return dop.JaxDQNAgent(3, observation_shape=(2,), observation_dtype=jnp.float32, stack_size=1, seed=seed,
                             network=functools.partial(networks.MLPNetwork, is_dopamine=True))
    return doq.JaxQuantileAgent(3, observation_shape=(2,), observation_dtype=jnp.float32, stack_size=1, seed=seed,
                                network=networks.QuantileNetwork)
  def seeded(k, f, *a):
    np.random.seed(k)
    random.seed(k)
    return f(*a)
  a, b = seeded(s0, traindrv.make_agent, kind, None, (2,), 3, seed), seeded(s0, plain)
  w = Writer()
  if rng.random() < 0.8:
    a.set_summary_writer(w)
    ref = b.summary_writer = Reference()
  else:
    w, ref = None, Writer()
  def marks(t):
    ls = [np.asarray(x, np.float64).reshape(-1) for x in jax.tree_util.tree_leaves(t)]
    return [F(float(np.dot(x, np.cos(np.arange(x.size))))) for x in ls]
  log, inn, m = [dict(op='twin', cfg=cfg)], False, 'train'
  for i in range(n):
    if not inn and rng.random() < 0.3:
      m = rng.choice(['train', 'train', 'eval'])
      a.set_mode(m)
      b.eval_mode = m == 'eval'
    o, r, k = np.array([rng.gauss(0, 1), rng.gauss(0, 1)], np.float32), rng.choice([0.0, 0.5, 1.0, -1.0]), rng.randrange(2**31)
    was = int(a.training_steps)
    got, had = len(w.got) if w else 0, len(ref.got)
    end = inn and i > 20 and rng.random() < 0.1
    if end:
      t = rng.random() < 0.7
      x, how = seeded(k, kit.call, a.end_episode, r, t)
      y = seeded(k, b.end_episode, r, t)
    elif inn:
      x, how = seeded(k, kit.call, a.step, r, o)
      y = seeded(k, b.step, r, o)
    else:
      x, how = seeded(k, kit.call, a.begin_episode, o)
      y = seeded(k, b.begin_episode, o)
    inn = not end
    log.append(dict(op='both', what='end' if end else 'act', m=m, how=how, x=-1 if x is None else int(x), y=-1 if y is None else int(y),
                    n=int(a._replay.add_count), was=was, writes=w is not None,
                    got=[dict(tag=g[0], v=g[1], step=g[2]) for g in w.got[got:]] if w else [],
                    ref=[g[1] for g in ref.got[had:]],
                    a=[marks(a.online_params), marks(a.target_network_params), marks(a.optimizer_state)],
                    b=[marks(b.online_params), marks(b.target_network_params), marks(b.optimizer_state)]))
  return log


def nets(c):
  """Forward passes of the two networks of several shapes."""
  import gin, jax, numpy as np
  from balloon_learning_environment.agents import networks
  F, rng, tr = kit.flt, c.rng, []
  for _ in range(c.n(10, 80)):
    layers, hidden, na, ni = rng.choice([1, 2, 3, 4]), rng.choice([1, 3, 5]), rng.choice([1, 3, 4]), rng.choice([1, 2, 6])
    x = np.array([rng.gauss(0, 1) for _ in range(ni)], np.float32)
    if rng.random() < 0.5:
      dop = rng.random() < 0.5
      net, atoms = networks.MLPNetwork(num_actions=na, num_layers=layers, hidden_units=hidden, is_dopamine=dop), 0
    else:
      atoms = rng.choice([1, 2, 5])
      net = networks.QuantileNetwork(num_actions=na, num_layers=layers, hidden_units=hidden, num_atoms=atoms)
    shaped = x.reshape((ni, 1)) if rng.random() < 0.5 else x
    p = net.init(jax.random.PRNGKey(rng.randrange(10**6)), shaped)
    # Random biases as well: the initial ones are zero.
    p = jax.tree_util.tree_map(lambda v: np.asarray([rng.gauss(0, 1) for _ in range(v.size)], np.float32).reshape(v.shape), p)
    out = net.apply(p, shaped)
    q = out if hasattr(out, 'shape') else out.q_values
    d = p['params']
    ls = [d[f'Dense_{i}'] for i in range(len(d))]
    outs = na * max(atoms, 1)
    e = dict(op='net', x=[F(v) for v in x], atoms=atoms, q=[F(v) for v in np.asarray(q).reshape(-1)],
             layers=[dict(w=[[F(v) for v in r] for r in l['kernel']], b=[F(v) for v in l['bias']]) for l in ls],
             shape=[list(l['kernel'].shape) for l in ls],
             want=[[ni if i == 0 else hidden, outs if i == layers - 1 else hidden] for i in range(layers)])
    if atoms:
      e['logits'] = [[F(v) for v in r] for r in np.asarray(out.logits)]
    tr.append(e)
  return tr


def mlp(c):
  """The multi-layer perceptron agent with a linear network and one-hot states."""
  import gin, numpy as np
  from balloon_learning_environment.agents import agent, mlp_agent
  rng, F = c.rng, kit.flt
  gin.clear_config()
  lr, gamma = rng.choice([0.1, 0.5, 0.001]), rng.choice([0.0, 0.9, 0.5])
  gin.parse_config(f'MLPNetwork.num_layers = 1\nMLPNetwork.hidden_units = 3\nmlp_agent.create_optimizer.learning_rate = {lr}')
  a = mlp_agent.MLPAgent(3, (4,), gamma=gamma, seed=rng.randrange(1000))
  def params():
    d = a.network_params['params']['Dense_0']
    return dict(w=[[F(v) for v in r] for r in np.asarray(d['kernel'])], b=[F(v) for v in np.asarray(d['bias'])])
  tr, m = [], 'train'
  other = mlp_agent.MLPAgent(3, (4,), gamma=0.5, seed=rng.randrange(1000))
  def elsewhere():   # another agent of the kind, in another mode
    if rng.random() < 0.4:
      kit.call(other.set_mode, rng.choice(['train', 'eval']))
    if rng.random() < 0.3:
      kit.call(rng.choice([other.begin_episode, lambda o: other.step(0.5, o)]), np.eye(4, dtype=np.float32)[rng.randrange(4)])
  kit.call(other.begin_episode, np.eye(4, dtype=np.float32)[0])
  for _ in range(c.n(8, 24)):
    if rng.random() < 0.5:
      m = rng.choice(['train', 'eval'])
      a.set_mode(m if rng.random() < 0.5 else agent.AgentMode(m))
    i = rng.randrange(4)
    one = lambda i: np.eye(4, dtype=np.float32)[i]
    act, how = kit.call(a.begin_episode, one(i))
    act = int(act) if how == 'ok' else -1
    for _ in range(rng.randrange(12)):
      if rng.random() < 0.3:   # also in the middle of an episode
        m = rng.choice(['train', 'eval'])
        a.set_mode(m)
      j = rng.choice([x for x in range(4) if x != i])
      elsewhere()
      r, before = rng.randrange(-8, 9) / 4, params()
      out, how = kit.call(a.step, r, one(j))
      after = params()
      out = int(out) if how == 'ok' else -1
      tr.append(dict(op='mlp', how=how, m=m, r=F(r), a=act, out=out, si=i + 1, s2i=j + 1, gamma=F(gamma), lr=F(lr),
                     s=[F(v) for v in one(i)], s2=[F(v) for v in one(j)], before=before, after=after))
      i, act = j, out
    before = params()
    _, how = kit.call(a.end_episode, 1.0, rng.random() < 0.5)
    tr.append(dict(op='mlpend', how=how, before=before, after=params()))
  return tr


def randoms(c):
  from balloon_learning_environment.agents import agent
  import numpy as np
  tr = []
  for na in (1, 2, 3, 5):
    a = agent.RandomAgent(na, (2,))
    n, o = c.n(600, 6000), np.zeros(2, np.float32)
    got = [int(a.begin_episode(o) if k % 10 == 0 else a.step(0.0, o)) for k in range(n)]
    tr.append(dict(op='random', n=n, na=na, counts=[got.count(i) for i in range(na)],
                   outside=sum(g not in range(na) for g in got)))
  return tr


def run(c):
  ts = []
  r = c.model('MC_Learner', CFG.format(s=c.n(2, 3), e=c.n(3, 4)), workers=1)
  tours = kit.Graph(r).tour(c.rng, c.n(60, 120))
  c.rng.shuffle(tours)
  kinds = [('dqn', 0.0, 'none'), ('quantile', 0.0, 'swap'), ('dqn', 0.5, 'none'), ('quantile', 0.0, 'none'),
           ('quantile', 0.5, 'swap')]
  for i, (_, path) in enumerate(tours[:c.n(15, 150)]):
    kind, eps, ex = kinds[i % len(kinds)]
    cfg = dict(hist=3, update=2, target=3)
    traindrv.bind(**cfg, eps=eps)
    a = Agent(c, kind, cfg, eps == 0.0, ex)
    for e, _t in path:
      getattr(a, e['op'])(e)
    ts.append(a.done())
  lives = [dict(hist=2, update=3, target=2), dict(hist=5, update=4, target=6), dict(hist=10, update=1, target=5),
           dict(hist=2, update=2, target=3), dict(hist=2, update=4, target=1), dict(hist=5, update=3, target=5)]
  for i in range(c.n(8, 60)):
    kind, eps, ex = kinds[i % len(kinds)]
    # Every kind of agent meets periods that do not divide each other.
    cfg = lives[(i + i // len(kinds)) % len(lives)]
    ee = c.rng.choice([0.0, 0.0, 0.5])
    traindrv.bind(**cfg, eps=eps, cap=60, eval_eps=ee, horizon=1)
    a = Agent(c, kind, cfg, eps == 0.0, ex, ee == 0.0)
    random_history(c.rng, a, c.n(90, 200))
    ts.append(a.done())
  for i in range(c.n(4, 40)):
    kind = ['dqn', 'quantile'][i % 2]
    # The replay must hold more than the horizon before it is sampled.
    cfg = dict(lives[i % len(lives)], hist=12)
    traindrv.bind(**cfg, cap=60, horizon=[3, 2, 1, 5][(i // 2) % 4], gamma=c.rng.choice([0.5, 0.9]),
                  scheme=['prioritized', 'prioritized', 'uniform'][(i // 2) % 3])
    ts.append(twin(c, kind, cfg, c.n(70, 150)))
  cfg = dict(hist=20, update=9, target=20)
  traindrv.bind(**cfg)
  a = Agent(c, 'quantile', cfg, True, 'marco')
  for n in c.n([130], [130, 300]):
    a.begin()
    for _ in range(n):
      a.step()
    a.end(dict(t=False))
  ts.append(a.done())
  ts.append(nets(c))
  for _ in range(c.n(6, 60)):
    ts.append(mlp(c))
  ts.append(randoms(c))
  c.judge('T_Learner', ts)
