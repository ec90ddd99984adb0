"""Drives several environments (or arenas) and records what they are on."""
import copy, datetime as dt, pickle
import kit, simdrv, winddrv

SPOTS = ((0.0, 0.0, 9000.0, 0.0), (150.0, -70.0, 7200.0, 3.7), (-320.0, 210.0, 11800.0, 21.3), (80.0, 90.0, 6100.0, 40.0))


def configs():
  """name → keyword arguments of an environment with that configuration."""
  winddrv.lib()
  S = simdrv.sim()
  static = S.wind_field.SimpleStaticWindField
  from balloon_learning_environment.env import generative_wind_field as g
  light = simdrv.light_features()
  return dict(static=dict(wind_field_factory=static),
              gen=dict(wind_field_factory=g.generative_wind_field_factory, feature_constructor_factory=light),
              full=dict(wind_field_factory=g.generative_wind_field_factory))


_proj = {}


def project(obs):
  """A few fixed combinations of all observation entries."""
  import numpy as np
  n = obs.size
  if n not in _proj:
    _proj[n] = np.random.default_rng(n).uniform(0.1, 1.0, (4, n))
  o = np.asarray(obs, np.float64).reshape(-1)
  return [kit.flt(float(v)) for v in _proj[n] @ o] + [kit.flt(float(v)) for v in (o[:4] if n >= 4 else o)]


def physical(state, reward=None, terminal=None):
  """Numbers that identify a simulator state."""
  S = simdrv.sim()
  from balloon_learning_environment.env import balloon_env
  b, w, a = state.balloon_state, state.wind_field, state.atmosphere
  r = simdrv.rec_state(b)
  names = [s.name for s in type(b.status)]
  v = [r[k] if k != 'status' else kit.flt(float(names.index(r[k]))) for k in sorted(r)]
  v += [kit.flt(float(x)) for x in (b.center_latlng.lat().radians, b.center_latlng.lng().radians, b.upwelling_infrared,
                                    int(b.last_command), bool(b.navigation_is_paused), b.battery_soc, bool(b.power_safety_layer_enabled))]
  for p in (6000.0, 11000.0):
    at = a.at_pressure(p)
    v += [kit.flt(at.height.meters), kit.flt(at.temperature)]
  t = b.time_elapsed
  here = [(b.x, b.y, b.pressure, t)]
  for x, y, p, h in SPOTS:
    here.append((S.units.Distance(km=x), S.units.Distance(km=y), p, dt.timedelta(hours=h)))
  for i, (x, y, p, h) in enumerate(here):
    for f in (w.get_ground_truth, w.get_forecast):
      u = f(x, y, p, h)
      v += [kit.flt(u.u.meters_per_second), kit.flt(u.v.meters_per_second)]
  if reward is None:
    reward = balloon_env.perciatelli_reward_function(state)
  if terminal is None:
    terminal = b.status != S.balloon.BalloonStatus.OK
  return v + [kit.flt(float(reward)), kit.flt(float(bool(terminal)))]


def parts(state, windy):
  """Sampled quantities, which differ between episodes."""
  b, a = state.balloon_state, state.atmosphere
  out = [['x', kit.flt(b.x.meters)], ['y', kit.flt(b.y.meters)], ['latitude', kit.flt(b.center_latlng.lat().radians)],
         ['longitude', kit.flt(b.center_latlng.lng().radians)], ['time', kit.flt(simdrv.ts_of(b.date_time))],
         ['pressure', kit.flt(b.pressure)], ['atmosphere', kit.flt(a.at_pressure(6000.0).height.meters)]]
  if windy:
    S = simdrv.sim()
    x, y, p, h = SPOTS[1]
    at = (S.units.Distance(km=x), S.units.Distance(km=y), p, dt.timedelta(hours=h))
    f, g = state.wind_field.get_forecast(*at), state.wind_field.get_ground_truth(*at)
    out += [['forecast', kit.flt(f.u.meters_per_second)],
            ['noise', kit.flt(round(g.u.meters_per_second - f.u.meters_per_second, 9))]]
  return out


class World:
  """Several environments; every operation is recorded."""

  def __init__(self, rng, cfg, base=0, clauses=None):
    self.rng, self.cfg, self.base = rng, cfg, base
    self.kw = configs()[cfg]
    self.env, self.log, self.slots, self.fresh = {}, [dict(op='begin')] if not base else [], {}, 0
    self.clauses = clauses or {}
    self.plan = [rng.randrange(3) for _ in range(2000)]
    self.at = {}   # environment → number of actions in its flight
    self.slot_at = {}

  def _tag(self):
    self.fresh += 1
    return f'fresh{self.base}_{self.fresh}'

  def _note(self, e, obs=None, how='ok', reward=None, terminal=None, **k):
    rec = dict(e=e + self.base, cfg=self.cfg, how=how, o=[], parts=[], **k)
    if k['op'] in self.clauses:
      rec['clause'] = self.clauses[k['op']]
    if how == 'ok':
      st = self.env[e].get_simulator_state()
      rec['v'] = physical(st, reward, terminal)
      if obs is not None:
        rec['o'] = project(obs)
      if k['op'] in ('new', 'reseed', 'reset'):
        rec['parts'] = parts(st, self.cfg != 'static')
    else:
      rec['why'] = kit.call.last[-300:]
    self.log.append(rec)
    return how == 'ok'

  def _int(self, s):
    import numpy as np
    return self.rng.choice([int, int, np.int64, np.int32])(s)

  def new(self, e, s=None, obs=True):
    S = simdrv.sim()
    kw = dict(self.kw)
    if s is not None:
      kw['seed'] = self._int(s)
    env, how = kit.call(S.balloon_env.BalloonEnv, **kw)
    if how == 'ok':
      self.env[e] = env
    self.at[e] = 0
    o = env.arena.feature_constructor.get_features() if how == 'ok' else None
    self._note(e, o, how, op='new', s=str(s) if s is not None else self._tag())

  def seed(self, e, s):
    _, how = kit.call(self.env[e].seed, self._int(s)) if self.rng.random() < 0.7 else kit.call(self.env[e].seed, seed=int(s))
    self._note(e, None, how, op='seed', s=str(s))

  def reset(self, e):
    self.at[e] = 0
    o, how = self._reset(e)
    self._note(e, o, how, op='reset')

  def _reset(self, e, **kw):
    if self.rng.random() < 0.3:
      r, how = kit.call(self.env[e].reset, return_info=True, **kw)
      return (r[0] if how == 'ok' else None), how
    return kit.call(self.env[e].reset, **kw)

  def reseed(self, e, s):
    self.at[e] = 0
    if self.rng.random() < 0.4:
      self.env[e].seed(self._int(s))
      o, how = self._reset(e)
    else:
      o, how = self._reset(e, seed=self._int(s))
    self._note(e, o, how, op='reseed', s=str(s))

  def step(self, e, a=None):
    if a is None:
      a = self.plan[self.at[e]] if self.rng.random() < 0.95 else self.rng.randrange(3)
    self.at[e] += 1
    r, how = kit.call(self.env[e].step, a)
    if how != 'ok':
      ended = self.env[e].get_simulator_state().balloon_state.status.name != 'OK'
      if ended:   # refused, but the command is remembered
        self._note(e, op='step', a=f'refused{a}')
        return False
      return self._note(e, None, how, op='step', a=str(a))
    o, rew, t, info = r
    self._note(e, o, how, rew, t, op='step', a=str(a))
    return not t

  def poke(self, e, kind):
    """A reproducible change to the balloon: a flight action like any other."""
    S = simdrv.sim()
    arena = self.env[e].arena if hasattr(self.env[e], 'arena') else self.env[e]
    b = copy.copy(arena.get_balloon_state())
    if kind == 'drain':
      b.battery_charge = S.units.Energy(watt_hours=0.4)
    elif kind == 'strain':
      b.mols_air = b.mols_air + 20000.0
    elif kind == 'low':   # at night, reason enough to pause navigation
      b.battery_charge = b.battery_capacity * 0.04
    elif kind == 'refill':   # a pause that has begun lasts
      b.battery_charge = b.battery_capacity * 0.97
    elif kind == 'dive':   # near the altitude floor
      b.pressure = arena.get_simulator_state().atmosphere.at_height(S.units.Distance(feet=50250.0)).pressure
    elif kind == 'free':
      b.power_safety_layer_enabled = False
    elif kind == 'far':
      b.x = S.units.Distance(km=b.x.kilometers + 260.0)
    self.at[e] += 1
    _, how = kit.call(arena.set_balloon_state, b)
    self._note(e, None, how, op='step', a=kind)

  def perturb(self, e):
    """Anything may have happened to this environment; it must be reseeded."""
    import random, numpy as np
    rng, env = self.rng, self.env[e]
    k = rng.randrange(5)
    if k == 0:   # a terminal episode
      self.poke(e, rng.choice(['drain', 'strain']))
      self.log.pop()
      for _ in range(rng.randrange(1, 60)):
        if kit.call(env.step, rng.randrange(3))[1] != 'ok':
          break
    elif k == 1:   # a long one
      for _ in range(rng.randrange(20, 120)):
        kit.call(env.step, rng.randrange(3))
    elif k == 2:   # another wind field and atmosphere
      other = rng.choice(list(self.env.values()))
      kit.call(env.arena.set_simulator_state, copy.deepcopy(other.get_simulator_state()))
      for _ in range(3):
        kit.call(env.step, rng.randrange(3))
    elif k == 3:
      for _ in range(rng.randrange(1, 6)):
        env.reset()
    else:
      env.arena.reset(rng.randrange(1000))
    self.world_noise()
    self.log.append(dict(op='perturb', e=e + self.base, kind=k))

  def world_noise(self):
    """What the rest of the process may do meanwhile."""
    import random, numpy as np
    k = self.rng.randrange(3)
    if k == 0:
      random.seed(self.rng.randrange(100)); np.random.seed(self.rng.randrange(100))
    elif k == 1:
      np.random.rand(self.rng.randrange(9)); random.random()

  def save(self, e, i):
    env = self.env[e]
    state = env.get_simulator_state()
    self.slots[i] = pickle.dumps(state) if self.rng.random() < 0.3 and self.pickles(state) else copy.deepcopy(state)
    self.slot_at[i] = self.at[e]
    self._note(e, None, op='save', i=i)

  @staticmethod
  def pickles(state):
    try:
      pickle.dumps(state)
      return True
    except Exception:
      return False

  def restore(self, e, i):
    s = self.slots[i]
    env = self.env[e]
    target = env.arena if hasattr(env, 'arena') else env
    s = pickle.loads(s) if isinstance(s, bytes) else copy.deepcopy(s)
    _, how = kit.call(target.set_simulator_state, s)
    self.at[e] = self.slot_at[i]
    self._note(e, None, how, op='restore', i=i)


  def mix(self, e, i, la, lw):
    """A state put together from a saved one and the air or wind of the environment, as they are or copied."""
    s = self.slots[i]
    env = self.env[e]
    target = env.arena if hasattr(env, 'arena') else env
    s = pickle.loads(s) if isinstance(s, bytes) else copy.deepcopy(s)
    live = env.get_simulator_state()
    own = lambda x: x if self.rng.random() < 0.6 else copy.deepcopy(x)
    s = type(s)(s.balloon_state, own(live.wind_field) if lw else s.wind_field, own(live.atmosphere) if la else s.atmosphere)
    _, how = kit.call(target.set_simulator_state, s)
    self.at[e] = self.slot_at[i]
    self._note(e, None, how, op='mix', i=i, la=la, lw=lw)


class ArenaWorld(World):
  """The same with bare arenas, which are seeded by every reset."""

  def __init__(self, rng, cfg, base=0):
    super().__init__(rng, cfg, base)
    self.cfg = 'arena-' + cfg
    self.windy = cfg != 'static'

  def _note(self, e, *a, **k):
    full, self.cfg = self.cfg, self.cfg if self.windy else 'static'
    try:
      return super()._note(e, *a, **k)
    finally:
      self.cfg = full
      self.log[-1]['cfg'] = full

  def _seed(self, s):
    import jax, numpy as np
    k = self.rng.randrange(6)
    return (int(s), int(s), np.int64(s), np.int32(s), jax.random.PRNGKey(int(s)), np.asarray(jax.random.PRNGKey(int(s))))[k]

  def new(self, e, s=None):
    from balloon_learning_environment.env import balloon_arena, features
    kw = dict(self.kw)
    args = [kw.get('feature_constructor_factory', features.PerciatelliFeatureConstructor), kw['wind_field_factory']()]
    if s is not None:
      args.append(self._seed(s))
    a, how = kit.call(balloon_arena.BalloonArena, *args)
    if how == 'ok':
      self.env[e] = a
    self.at[e] = 0
    o = None
    if how == 'ok':
      o, how = kit.call(lambda: a.feature_constructor.get_features())
    self._note(e, o, how, op='new', s=str(s) if s is not None else self._tag())

  def reseed(self, e, s):
    self.at[e] = 0
    o, how = kit.call(self.env[e].reset, self._seed(s)) if self.rng.random() < 0.7 else kit.call(
        self.env[e].reset, seed=self._seed(s))
    self._note(e, o, how, op='reseed', s=str(s))

  def reset(self, e):
    self.at[e] = 0
    o, how = kit.call(self.env[e].reset)
    self._note(e, o, how, op='reseed', s=self._tag())

  def step(self, e, a=None):
    S = simdrv.sim()
    if a is None:
      a = self.plan[self.at[e]] if self.rng.random() < 0.95 else self.rng.randrange(3)
    self.at[e] += 1
    C = type(S.C['UP'])
    o, how = kit.call(self.env[e].step, C(a))
    st = self.env[e].get_simulator_state().balloon_state.status.name
    if how != 'ok':
      self._note(e, op='step', a=f'refused{a}') if st != 'OK' else self._note(e, None, how, op='step', a=str(a))
      return False
    self._note(e, o, how, op='step', a=str(a))
    return st == 'OK'
