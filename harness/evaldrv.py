"""Drivers for evaluation."""
import json, types
import kit, simdrv


def stub_state(rng):
  return simdrv.random_balloon(rng)[0].state


def fields(s):
  """The flight-path fields of a (simple) balloon state."""
  f = kit.flt
  return dict(x=f(s.x.kilometers), y=f(s.y.kilometers), p=f(s.pressure), sp=f(s.superpressure),
              el=f(s.time_elapsed.total_seconds()), soc=f(s.battery_soc))


class End(BaseException):
  pass


class Env:
  """An environment whose episodes follow a script; its state object is live."""

  def __init__(self, rng, log, script, radius_km):
    import numpy as np
    from balloon_learning_environment.utils import units
    self.rng, self.log, self.script, self.np, self.units = rng, log, script, np, units
    self.radius = units.Distance(km=radius_km)
    self.radius_km = radius_km
    self.action_space = types.SimpleNamespace(n=3)
    self.observation_space = types.SimpleNamespace(shape=(2,))
    self.count = 0
    self.state = stub_state(rng)

  def _obs(self):
    self.count += 1
    return self.np.array([self.count, 0.5], self.np.float32)

  def seed(self, seed=None):
    self.log.append(dict(op='seed', s=kit.enc(seed)))

  def reset(self, **unused):
    o = self._obs()
    self.log.append(dict(op='reset', obs=self.count))
    return o

  def step(self, action):
    import datetime as dt
    if len(self.log) > 20000:
      raise End()
    cause = self.script.pop(0) if self.script else 'none'
    rng, R = self.rng, self.radius_km
    x, y = rng.choice([(0.0, 0.0), (0.6 * R, 0.8 * R), (R, 0.0), (0.0, -R), (R, 1.0),
                       (rng.uniform(-R, R), rng.uniform(-R, R)), (rng.uniform(-3 * R, 3 * R), rng.uniform(-R, R))])
    s = self.state
    s.x, s.y = self.units.Distance(km=x), self.units.Distance(km=y)
    s.pressure = rng.uniform(5000, 14000)
    s.time_elapsed += dt.timedelta(minutes=3)
    s.battery_charge = s.battery_capacity * rng.random()
    r = rng.choice([0.0, 1.0, 0.25, rng.random()])
    o = self._obs()
    t = cause != 'none'
    info = dict(out_of_power=cause == 'oop', envelope_burst=cause == 'burst', zeropressure=cause == 'zero',
                time_elapsed=s.time_elapsed)
    for k in list(info):
      if not info[k] and rng.random() < 0.2:
        del info[k]   # an absent cause is no cause
    self.log.append(dict(op='step', a=kit.enc(action), r=kit.flt(r), t=t, obs=self.count, oop=cause == 'oop',
                         burst=cause == 'burst', zero=cause == 'zero', **fields(s)))
    return o, r, t, info

  def get_simulator_state(self):
    return types.SimpleNamespace(balloon_state=self.state)

  def render(self, *a, **k):
    self.log.append(dict(op='render'))

  def close(self):
    pass


def agent(rng, log):
  from balloon_learning_environment.agents import agent as base

  class Rec(base.Agent):

    def begin_episode(self, observation):
      a = rng.randrange(3)
      log.append(dict(op='begin', obs=int(observation[0]), a=a))
      return a

    def step(self, reward, observation):
      a = rng.randrange(3)
      log.append(dict(op='act', r=kit.flt(reward), obs=int(observation[0]), a=a))
      return a

    def end_episode(self, reward, terminal=True):
      log.append(dict(op='end', r=kit.flt(reward), t=bool(terminal)))

    def set_mode(self, mode):
      m = base.AgentMode(mode).name
      if live:
        log.append(dict(op='mode', m=m))

  live = []
  a = Rec(3, (2,))
  live.append(1)
  return a


def rec_result(r):
  return dict(seed=kit.enc(r.seed), reward=kit.flt(r.cumulative_reward), twr=kit.flt(r.time_within_radius),
              oop=bool(r.out_of_power), burst=bool(r.envelope_burst), zero=bool(r.zeropressure),
              final=kit.enc(r.final_timestep), path=[fields(s) for s in r.flight_path])


def from_json(d):
  f = kit.flt
  return dict(seed=kit.enc(d['seed']), reward=f(d['cumulative_reward']), twr=f(d['time_within_radius']),
              oop=d['out_of_power'], burst=d['envelope_burst'], zero=d['zeropressure'],
              final=kit.enc(d['final_timestep']),
              path=[dict(x=f(p['x']), y=f(p['y']), p=f(p['pressure']), sp=f(p['superpressure']),
                         el=f(p['elapsed_seconds']), soc=f(p['power'])) for p in d['flight_path']])


def replay(rng, cfg, causes):
  """eval_agent on a suite whose episodes end as scripted."""
  from balloon_learning_environment.eval import eval_lib, suites
  pool = [0, 1, 7, 9999, 2**31 - 2, 5, 5]
  seeds = [rng.choice(pool) for _ in range(cfg['n'])]
  radius = rng.choice([50.0, 50.0, 35.0, 100.0])
  p = rng.choice([1, 2, 3, 10])
  with_path = rng.random() < 0.7
  log = [dict(op='suite', cfg=dict(n=cfg['n'], l=cfg['l'], p=p, path=with_path, radius=kit.flt(radius)),
              seeds=list(seeds))]
  env = Env(rng, log, list(causes), radius)
  # Any sequence will do for the seeds.
  suite = suites.EvaluationSuite(rng.choice([list, tuple])(seeds), cfg['l'])
  kw = {} if with_path and rng.random() < 0.5 else dict(calculate_flight_path=with_path)
  if p != 10 or rng.random() < 0.5:
    kw['render_period'] = p
  try:
    res, how = kit.call(eval_lib.eval_agent, agent(rng, log), env, suite, **kw)
  except End:
    res, how = [], 'endless'
  res = list(res or [])
  log.append(dict(op='return', how=how, n=len(res), seeds=[kit.enc(s) for s in suite.seeds]))
  log += [dict(op='result', **rec_result(r)) for r in res]
  txt, how = kit.call(lambda: json.loads(json.dumps(res, cls=eval_lib.EvalResultEncoder)))
  log.append(dict(op='json', how=how, res=[from_json(d) for d in txt or []]))
  return log


class Hashing:
  """A deterministic agent: its action is a function of the observation."""

  def __new__(cls, k=1.0):
    from balloon_learning_environment.agents import agent as base

    class H(base.Agent):
      def _act(self, o):
        return int(abs(float(o[:16].sum()) * 1e4 * k)) % 3
      def begin_episode(self, observation):
        return self._act(observation)
      def step(self, reward, observation):
        return self._act(observation)
      def end_episode(self, reward, terminal=True):
        pass
    return H(3, (1099,))
