"""Drivers for the training loop, the checkpoint store and learning agents."""
import functools, os, pickle, re, shutil, tempfile, types
import kit

TINY = '''
import dopamine.jax.agents.dqn.dqn_agent
import dopamine.jax.agents.quantile.quantile_agent
import balloon_learning_environment.agents.dqn_agent
import balloon_learning_environment.agents.quantile_agent
import balloon_learning_environment.agents.networks
import dopamine.replay_memory.circular_replay_buffer
import dopamine.replay_memory.prioritized_replay_buffer
JaxDQNAgent.min_replay_history = {hist}
JaxDQNAgent.update_period = {update}
JaxDQNAgent.target_update_period = {target}
JaxDQNAgent.update_horizon = {horizon}
JaxDQNAgent.epsilon_train = {eps}
JaxDQNAgent.epsilon_eval = {eval_eps}
JaxDQNAgent.gamma = {gamma}
JaxDQNAgent.epsilon_fn = @dqn_agent.identity_epsilon
JaxDQNAgent.summary_writing_frequency = 2
JaxDQNAgent.allow_partial_reload = True
JaxQuantileAgent.min_replay_history = {hist}
JaxQuantileAgent.update_period = {update}
JaxQuantileAgent.target_update_period = {target}
JaxQuantileAgent.update_horizon = {horizon}
JaxQuantileAgent.epsilon_train = {eps}
JaxQuantileAgent.epsilon_eval = {eval_eps}
JaxQuantileAgent.gamma = {gamma}
JaxQuantileAgent.replay_scheme = '{scheme}'
JaxQuantileAgent.epsilon_fn = @dqn_agent.identity_epsilon
JaxQuantileAgent.num_atoms = 4
JaxQuantileAgent.summary_writing_frequency = 2
JaxQuantileAgent.allow_partial_reload = True
OutOfGraphReplayBuffer.replay_capacity = {cap}
OutOfGraphReplayBuffer.batch_size = 4
OutOfGraphPrioritizedReplayBuffer.replay_capacity = {cap}
OutOfGraphPrioritizedReplayBuffer.batch_size = 4
agents.networks.MLPNetwork.num_layers = 2
agents.networks.MLPNetwork.hidden_units = 3
agents.networks.QuantileNetwork.num_layers = 2
agents.networks.QuantileNetwork.hidden_units = 3
'''


def bind(hist=4, update=1, target=3, eps=0.0, cap=200, eval_eps=0.0, horizon=1, gamma=0.99, scheme='prioritized'):
  import gin
  gin.clear_config()
  gin.parse_config(TINY.format(hist=hist, update=update, target=target, eps=eps, cap=cap, eval_eps=eval_eps,
                               horizon=horizon, gamma=gamma, scheme=scheme))


def agent_class(kind):
  from balloon_learning_environment.agents import dqn_agent, quantile_agent
  return dict(dqn=dqn_agent.DQNAgent, quantile=quantile_agent.QuantileAgent)[kind]


def make_agent(kind, cls=None, shape=(2,), actions=3, seed=1, duration=None, explore=None):
  from balloon_learning_environment.agents import exploration, networks
  cls = cls or agent_class(kind)
  if kind == 'dqn':
    return cls(actions, shape, seed=seed, network=networks.MLPNetwork,
               checkpoint_duration=duration)
  return cls(actions, shape, seed=seed, network=networks.QuantileNetwork,
             exploration_wrapper_constructor=explore or exploration.Exploration,
             checkpoint_duration=duration, reload_perciatelli=False)


class Died(BaseException):
  """The process dies here."""


class Bomb:
  """Dies while it is being written."""

  def __reduce__(self):
    raise Died('torn write')


class Script:
  """What happens next: the actions of one path of the model."""

  def __init__(self, actions, log):
    self.todo, self.pos, self.log = actions, 0, log

  def peek(self):
    return self.todo[self.pos] if self.pos < len(self.todo) else None

  def crash(self, at):
    """True if the process dies during this activity."""
    a = self.peek()
    if a is None or len(self.log) > 3000:
      self.log.append(dict(op='crash', at='script'))
      raise Died('end of script')
    return a['op'] == 'crash' and a['at'] == at

  def die(self, at):
    self.pos += 1
    self.log.append(dict(op='crash', at=at))
    raise Died(at)

  def take(self, op):
    a = self.peek()
    if a is not None and a['op'] == op:
      self.pos += 1
      return a
    return {}


def stub_env(rng, sc):
  import gym, numpy as np

  class Env(gym.Env):

    def __init__(self):
      self.action_space = gym.spaces.Discrete(3)
      self.count = 0

    def _obs(self):
      self.count += 1
      return np.array([self.count, 0.5], np.float32)

    def reset(self, **unused):
      if sc.crash('reset'):
        sc.die('reset')
      o = self._obs()
      sc.log.append(dict(op='reset', obs=self.count))
      return o

    def step(self, action):
      if sc.crash('step'):
        sc.die('step')
      t = bool(sc.take('step').get('t', False))
      r = rng.randrange(-8, 9) / 4
      o = self._obs()
      sc.log.append(dict(op='step', a=kit.enc(action), r=kit.flt(r), t=t, obs=self.count))
      return o, r, t, {}

    def render(self, *a, **k):
      sc.log.append(dict(op='render'))

  return Env()


def scripted_agent(kind, rng, sc):
  """A real learning agent whose choices are random and whose store is real."""
  base = agent_class(kind)

  class Rec(base):

    def _pick(self):
      return rng.randrange(3)

    def begin_episode(self, observation):
      if sc.crash('begin'):
        sc.die('begin')
      sc.take('begin')
      a = self._pick()
      w = getattr(self, 'summary_writer', None)
      sc.log.append(dict(op='begin', obs=int(observation[0]), a=a, writer='none' if w is None else getattr(w, 'name', 'other')))
      return a

    def step(self, reward, observation):
      if sc.crash('act'):
        sc.die('act')
      sc.take('act')
      a = self._pick()
      sc.log.append(dict(op='act', r=kit.flt(reward), obs=int(observation[0]), a=a))
      return a

    def end_episode(self, reward, terminal=True):
      if sc.crash('end'):
        sc.die('end')
      sc.take('end')
      sc.log.append(dict(op='end', r=kit.flt(reward), t=bool(terminal)))

    def set_mode(self, mode):
      base.set_mode(self, mode)
      if getattr(self, 'watched', False):
        sc.log.append(dict(op='mode', m=kit.enc(mode) if not isinstance(mode, str) else mode.upper()))

    def save_checkpoint(self, checkpoint_dir, iteration_number):
      sc.log.append(dict(op='save', it=int(iteration_number), home=str(checkpoint_dir).startswith(sc.home)))
      if sc.crash('save_before'):
        sc.die('save_before')
      self.training_steps = 1000 + int(iteration_number)
      if sc.crash('save_torn'):
        self.state = [os.urandom(1 << rng.choice([4, 17, 18])), Bomb()]
        try:
          base.save_checkpoint(self, checkpoint_dir, iteration_number)
        except Died:
          sc.die('save_torn')
      after = sc.crash('save_after')
      base.save_checkpoint(self, checkpoint_dir, iteration_number)
      files = [int(m.group(1)) for m in (re.fullmatch(r'checkpoint_(\d+)\.pkl', f)
                                         for f in os.listdir(checkpoint_dir)) if m]
      sc.log.append(dict(op='saved', it=int(iteration_number), files=sorted(files)))
      if after:
        sc.die('save_after')
      sc.take('save')

    def reload_latest_checkpoint(self, checkpoint_dir):
      got = base.reload_latest_checkpoint(self, checkpoint_dir)
      t = int(self.training_steps)
      sc.log.append(dict(op='reload', got=kit.enc(got), mark=t - 1000 if t >= 1000 else -1))
      self.watched = True
      return got

  return make_agent(kind, cls=Rec, seed=rng.randrange(1000))


def collector(i, sc):
  from balloon_learning_environment.metrics import collector as base

  class Rec(base.Collector):

    def __init__(self, base_dir, num_actions, current_episode):
      super().__init__(base_dir, num_actions, current_episode)
      if i >= 2:
        self.summary_writer = types.SimpleNamespace(name=f'w{i}')
      self._say(ev='new', ep0=kit.enc(current_episode), na=kit.enc(num_actions), home=base_dir == sc.home)

    def _say(self, **k):
      sc.log.append(dict(op='c', i=i, **k))

    def get_name(self):
      return f'rec{i}'

    def pre_training(self):
      self._say(ev='pre')

    def begin_episode(self):
      if i == 1 and sc.crash('collector_begin'):
        sc.die('collector_begin')
      self._say(ev='begin')

    def _stat(self, s):
      return dict(k=kit.enc(s.step), a=kit.enc(s.action), r=kit.flt(s.reward), t=bool(s.terminal))

    def step(self, statistics):
      if i == 1 and sc.crash('collector_step'):
        sc.die('collector_step')
      self._say(ev='step', **self._stat(statistics))

    def end_episode(self, statistics):
      self._say(ev='end', **self._stat(statistics))

    def end_training(self):
      self._say(ev='fin')

  return Rec


def replay(rng, start, path, kind):
  """Drives run_training_loop along one path of MC_Train; returns the trace."""
  from balloon_learning_environment import train_lib
  log = []
  sc = Script([a for a, _ in path], log)
  cfg = dict(start['cfg'])
  nc = 1 if any(a['op'] == 'crash' and a['at'].startswith('collector') for a in sc.todo) else rng.randrange(4)
  cfg.update(p=rng.choice([1, 2, 3, 10]), nc=nc)
  d = sc.home = tempfile.mkdtemp(prefix='train_', dir=kit.workdir())
  fresh, finished = True, 0
  try:
    while sc.peek() is not None and sc.take('start'):
      log.append(dict(op='run', cfg=cfg, fresh=fresh))
      fresh = False
      try:
        _, how = kit.call(
            train_lib.run_training_loop, d, stub_env(rng, sc), scripted_agent(kind, rng, sc),
            cfg['n'], cfg['l'], [collector(i + 1, sc) for i in range(nc)],
            render_period=cfg['p'], episodes_per_iteration=cfg['e'])
        log.append(dict(op='return') if how == 'ok' else dict(op='raised', how=how, why=kit.call.last[-600:]))
        finished += how == 'ok'
        sc.take('return')
        if how != 'ok':
          break
      except Died:
        pass
  finally:
    shutil.rmtree(d, ignore_errors=True)
  if sc.peek() is not None and log[-1]['op'] not in ('raised',):
    # The loop went another way than the model: it must show in the verdict.
    log.append(dict(op='raised', how='script-not-followed', why=str(sc.peek())))
  return log, finished


def learn(rng, agent, steps, term=None):
  """Plays a stub episode of the given length; the agent learns if it trains."""
  import numpy as np
  ob = lambda: np.array([rng.random(), rng.random()], np.float32)
  agent.begin_episode(ob())
  for _ in range(steps):
    agent.step(rng.choice([0.0, 0.25, 1.0]), ob())
  agent.end_episode(rng.choice([0.0, 1.0]), rng.random() < 0.5 if term is None else term)


def digest(agent):
  """Digest of parameters, optimiser, counters and replay content."""
  import hashlib, jax, numpy as np
  h = hashlib.sha1()
  for tree in (agent.online_params, agent.target_network_params, agent.optimizer_state):
    for leaf in jax.tree_util.tree_leaves(tree):
      h.update(np.asarray(leaf).tobytes())
  h.update(str(int(agent.training_steps)).encode())
  return h.hexdigest()[:16] + ':' + replay_digest(agent)


def replay_digest(agent):
  import hashlib, numpy as np
  h = hashlib.sha1()
  r = agent._replay  # dopamine's replay memory; it has no public content accessor
  n = min(int(r.add_count), 200)
  for k in sorted(r._store):
    h.update(np.asarray(r._store[k])[:n].tobytes())
  return f'{int(r.add_count)}:{h.hexdigest()[:10]}'
