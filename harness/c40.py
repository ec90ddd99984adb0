"""C40: the environment as an agent meets it."""
import datetime as dt
import kit, simdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the environment interface and its exchangeable parts (spec/GymEnv.tla); TLC checks it and '
             'enumerates the call histories (MC_GymEnv), each is replayed on environments built from recording parts: own '
             'reward functions, feature constructors, wind fields and arenas; every call and answer is judged by TLC '
             '(T_GymEnv)')
NOTE = 'Histories of up to 2 flights of 3 steps; the unmodified default environment is flown for some steps as well.'
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxFlights = {e}
  MaxSteps = {s}
  MaxIdle = {i}
INVARIANTS KnowsTheFlight OnePerFlight Obeyed EmitInit
PROPERTIES OnlyTransitionsFly
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''
ACT = {'DOWN': 0, 'STAY': 1, 'UP': 2}


def wstr(w):
  return kit.flt(w.u.meters_per_second) + ' ' + kit.flt(w.v.meters_per_second)


def probe_winds(wf):
  U = simdrv.sim().units
  return ';'.join(wstr(wf.get_forecast(U.Distance(km=x), U.Distance(km=y), p, dt.timedelta(hours=h)))
                  for x, y, p, h in ((30.0, -70.0, 7000.0, 5), (0.0, 0.0, 11000.0, 30)))


def probe_air(atm):
  return ';'.join(kit.flt(atm.at_pressure(p).height.meters) for p in (6000.0, 9000.0, 13000.0))


class World:

  def __init__(self, rng, own, given_reward=True):
    import numpy as np, jax
    S = simdrv.sim()
    self.S, self.rng, self.own = S, rng, own
    self.calls, self.log, self.serving, self.fields, self.tok = [], [], [0], [0], [0]
    calls, W, np_ = self.calls, self, np
    from balloon_learning_environment.env import features, wind_field

    def token():
      W.tok[0] += 1
      return np_.array([W.tok[0], rng.random()], np_.float32)

    class Features(features.FeatureConstructor):
      def __init__(self, forecast, atmosphere):
        W.serving[0] += 1
        self.id = W.serving[0]
        calls.append(dict(c='make', id=self.id, winds=probe_winds(forecast), air=probe_air(atmosphere)))

      def observe(self, observation):
        calls.append(dict(c='observe', id=self.id, s=W.sdig(observation.balloon_observation),
                          wind=wstr(observation.wind_at_balloon)))

      def get_features(self):
        t = token()
        calls.append(dict(c='get', id=self.id, tok=repr(t.tolist())))
        return t

      @property
      def observation_space(self):
        return W.space

    class Field(wind_field.WindField):
      def __init__(self):
        super().__init__()
        W.fields[0] += 1
        self.k = 0.0

      def reset_forecast(self, key, date_time):
        self.k = float(jax.random.uniform(key)) * 10 - 5

      def get_forecast(self, x, y, pressure, elapsed_time):
        M = S.units.Velocity
        h = elapsed_time.total_seconds() / 3600
        return wind_field.WindVector(M(mps=self.k + x.kilometers / 100), M(mps=pressure / 5000 - self.k * h / 50))

    class Arena(S.balloon_arena.BalloonArenaInterface):
      """A flight that moves at random and dies at random."""
      def __init__(self):
        self.feature_constructor = Features(Field(), S.standard_atmosphere.Atmosphere(jax.random.PRNGKey(0)))
        self.wf = Field()
        self.wf.reset(jax.random.PRNGKey(1), dt.datetime(2020, 1, 1, tzinfo=dt.timezone.utc))
        self.ball, self.atm = simdrv.random_balloon(rng)
        calls.clear()

      def _answer(self):
        t = token()
        calls.append(dict(c='get', id=0, tok=repr(t.tolist())))
        return t

      def reset(self, seed=None):
        calls.append(dict(c='areset'))
        self.ball, self.atm = simdrv.random_balloon(rng)
        return self._answer()

      def step(self, action):
        calls.append(dict(c='astep', cmd=getattr(action, 'name', repr(action))))
        b = self.ball.state
        b.x += S.units.Distance(km=rng.uniform(-5, 5))
        b.date_time += dt.timedelta(seconds=rng.randrange(1, 600))
        b.time_elapsed += dt.timedelta(seconds=rng.randrange(1, 600))
        b.last_command = action
        b.status = rng.choice(list(S.balloon.BalloonStatus))
        return self._answer()

      def get_simulator_state(self):
        from balloon_learning_environment.env import simulator_data
        return simulator_data.SimulatorState(self.ball.state, self.wf, self.atm)

      def set_simulator_state(self, s): raise NotImplementedError
      def get_balloon_state(self): return self.ball.state
      def set_balloon_state(self, s): raise NotImplementedError
      def get_measurements(self): raise NotImplementedError

    def reward(state):
      r = rng.uniform(-3, 3)
      calls.append(dict(c='reward', s=W.sdig(state.balloon_state), r=kit.flt(r)))
      return r

    import gym
    self.space = gym.spaces.Box(-1.0, float(rng.randrange(2, 9)), (2,), np.float32)
    kw = dict(reward_function=reward)
    if rng.random() < 0.8:
      kw['seed'] = rng.randrange(2**31)
    if own:
      kw.update(feature_constructor_factory=Features, wind_field_factory=Field)
    else:
      kw.update(arena=Arena())
    self.env, how = kit.call(S.balloon_env.BalloonEnv, **kw)
    e = dict(op='new', how=how, why='' if how == 'ok' else kit.call.last[-300:], fields=self.fields[0])
    if how == 'ok':
      self._log(e)
    else:
      self.log.append(dict(e, own=own, now='', calls=[]))

  @staticmethod
  def sdig(b):
    import hashlib
    return hashlib.md5(repr((simdrv.rec_state(b), str(b.date_time), b.last_command.name if b.last_command is not None else '',
                             kit.flt(b.mols_air))).encode()).hexdigest()[:12]

  def _log(self, e):
    st = self.env.get_simulator_state()
    b = st.balloon_state
    e.update(own=self.own, calls=list(self.calls), now=self.sdig(b), status=b.status.name, serving=self.serving[0],
             now_elapsed=kit.flt(b.time_elapsed.total_seconds()), winds=probe_winds(st.wind_field), air=probe_air(st.atmosphere),
             wind=wstr(st.wind_field.get_ground_truth(b.x, b.y, b.pressure, b.time_elapsed)))
    self.calls.clear()
    self.log.append(e)

  def _info(self, e, info):
    e['flags'] = {k: bool(info[k]) for k in ('out_of_power', 'envelope_burst', 'zeropressure')}
    e['elapsed'] = kit.flt(info['time_elapsed'].total_seconds())

  def do(self, a):
    import numpy as np
    rng, env = self.rng, self.env
    e = dict(a)
    if a['op'] == 'reset':
      kw = {}
      if rng.random() < 0.4:
        kw['seed'] = rng.randrange(2**31)
      if a['info'] or rng.random() < 0.3:
        kw['return_info'] = a['info']
      r, how = kit.call(env.reset, **kw)
      e.update(how=how, shape='other', tok='')
      if how == 'ok':
        obs = r
        if isinstance(r, tuple) and len(r) == 2:
          e['shape'], obs = 'obs+info', r[0]
          self._info(e, r[1])
        elif isinstance(r, np.ndarray):
          e['shape'] = 'obs'
        e['tok'] = repr(np.asarray(obs).tolist())
    elif a['op'] == 'step':
      k = a['a']
      if k in (0, 1, 2):
        act = rng.choice([int, np.int64, np.int32, np.uint8])(k)
      else:
        act = rng.choice([3, 4, 100, np.int64(3)] if k == 3 else [-1, -2, 0.5, 'up', None, np.int32(-1)])
      r, how = kit.call(env.step, act)
      e.update(how=how, shape='other', tok='', given=repr(act))
      if how == 'ok' and isinstance(r, tuple) and len(r) == 4:
        e['shape'] = 'transition'
        self._info(e, r[3])
        lc = env.get_simulator_state().balloon_state.last_command
        e.update(tok=repr(np.asarray(r[0]).tolist()), reward=kit.flt(float(r[1])), terminal=bool(r[2]),
                 cmd=lc.name if lc is not None else '')
    elif a['op'] == 'with':
      try:
        with env as inner:
          e['ret'] = 'itself' if inner is env else 'other'
          if a['fails']:
            e['ret'] = 'swallowed'
            raise ZeroDivisionError
      except ZeroDivisionError:
        e['ret'] = 'reraised'
    elif a['op'] == 'spaces':
      sp = env.action_space
      e.update(n=int(sp.n), accepts=[k for k in range(-3, 7) if sp.contains(k)], obs_space=bool(env.observation_space == self.space),
               range=[kit.flt(float(v)) for v in env.reward_range], unwrapped=env.unwrapped is env)
    else:
      f = dict(seed=lambda: env.seed(rng.randrange(2**31)), render=lambda: env.render(*rng.choice([(), ('human',), ('rgb_array',)])),
               close=env.close)[a['op']]
      r, how = kit.call(f)
      e.update(how=how, ret='none' if r is None or a['op'] == 'seed' else 'other')
    self._log(e)


def default(c, n):
  """The environment nobody customised."""
  import numpy as np, winddrv
  winddrv.lib()
  S = simdrv.sim()
  rng, t = c.rng, [dict(op='begin')]
  with S.balloon_env.BalloonEnv(seed=rng.randrange(2**31)) as env:
    def rec(o, reward, how='ok'):
      t.append(dict(op='default', how=how, dims=list(np.shape(o)), dtype=str(getattr(o, 'dtype', '')), finite=bool(np.isfinite(o).all()),
                    inside=bool(env.observation_space.contains(o)), hasreward=reward is not None,
                    reward=kit.flt(float(reward or 0))))
    rec(env.reset(), None)
    for _ in range(n):
      o, r, done, _ = env.step(rng.choice([0, 0, 1, 2]))
      rec(o, r)
      if done:
        rec(env.reset(), None)
  return t


def run(c):
  rng = c.rng
  g = kit.Graph(c.model('MC_GymEnv', CFG.format(e=c.n(2, 3), s=c.n(2, 4), i=c.n(1, 2)), workers=1))
  tours = [p for _, p in g.tour(rng, max_len=40)]
  c.cov['model'] = dict(nodes=len(g.nodes), edges=g.n_edges, paths=len(tours))
  traces = []
  for own in (True, False):
    for _ in range(c.n(2, 8)):
      for path in tours:
        w = World(rng, own)
        dead = False
        for a, _ in path:
          if w.env is None:
            break
          if own and dead and a['op'] == 'step' and a['a'] in (0, 1, 2):
            break
          w.do(a)
          dead = w.log[-1]['status'] != 'OK'
        traces.append(w.log)
  traces.append(default(c, c.n(60, 1200)))
  c.judge('T_GymEnv', traces, chunks=8)
  c.cov['executions'] = dict(histories=len(traces), events=sum(map(len, traces)))
