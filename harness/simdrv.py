"""Records flights of the real simulator as events for spec/T_Flight.tla."""
import copy
import datetime as dt
import math
import kit

UTC = dt.timezone.utc


class Sim:
  """Lazily imported names of the implementation."""

  def __init__(self):
    import s2sphere as s2
    from balloon_learning_environment.env import balloon_arena, balloon_env, wind_field, features
    from balloon_learning_environment.env.balloon import (
        balloon, control, stable_init, standard_atmosphere, solar, thermal, acs)
    from balloon_learning_environment.utils import units, constants
    import jax
    self.__dict__.update(locals())
    self.C = control.AltitudeControlCommand


_sim = None


def sim():
  global _sim
  if _sim is None:
    _sim = Sim()
  return _sim


def ts_of(d):
  if d.tzinfo is None:
    d = d.replace(tzinfo=UTC)
  return (d - dt.datetime(1970, 1, 1, tzinfo=UTC)).total_seconds()


def rec_state(b):
  f = kit.flt
  return dict(x=f(b.x.meters), y=f(b.y.meters), p=f(b.pressure), ta=f(b.ambient_temperature),
              ti=f(b.internal_temperature), mhe=f(b.mols_lift_gas), mair=f(b.mols_air),
              vol=f(b.envelope_volume), sp=f(b.superpressure), acsw=f(b.acs_power.watts),
              flow=f(b.acs_mass_flow), solar=f(b.solar_charging.watts), load=f(b.power_load.watts),
              charge=f(b.battery_charge.watt_hours), ts=f(ts_of(b.date_time)),
              el=f(b.time_elapsed.total_seconds()), status=b.status.name)


def rec_vehicle(b):
  f = kit.flt
  return dict(v0=f(b.envelope_volume_base), dv=f(b.envelope_volume_dv_pressure),
              menv=f(b.envelope_mass), mpay=f(b.payload_mass), spmax=f(b.envelope_max_superpressure),
              cod=f(b.envelope_cod), nload=f(b.nighttime_power_load.watts),
              dload=f(b.daytime_power_load.watts), valve=f(b.acs_valve_hole_diameter.meters),
              cap=f(b.battery_capacity.watt_hours), lat=f(b.center_latlng.lat().radians),
              lng=f(b.center_latlng.lng().radians), ir=f(b.upwelling_infrared))


def begin(b, atm, ephemeris_from=None):
  """Begin event for a state whose safety layers are fresh."""
  S = sim()
  ll, t = ephemeris_from or (b.latlng, b.date_time)
  rise, sset = S.solar.get_next_sunrise_sunset(ll, t)
  km10 = atm.at_height(S.units.Distance(km=10)).temperature
  return dict(ev='begin', k=rec_vehicle(b), s=rec_state(b), t10=kit.flt(km10),
              rise=kit.flt(ts_of(rise)), set=kit.flt(ts_of(sset)),
              power=bool(b.power_safety_layer_enabled), alt='NOMINAL', env='NOMINAL', pow=False)


def effect(b, sp_before):
  """The command whose effect is visible in the recorded state."""
  if b.acs_power.watts > 0: return 'DOWN'
  if sp_before <= 0: return 'unknown'
  if b.acs_mass_flow < 0: return 'UP'
  return 'STAY' if b.acs_mass_flow == 0 else 'odd'


def twin_substeps(state, wind, atm, cmd, n):
  """The same step from a copy of the state, one substep per call."""
  S = sim()
  twin = S.balloon.Balloon(copy.deepcopy(state))
  subs = []
  for _ in range(n):
    _, exc = kit.call(twin.simulate_step, wind, atm, S.C[cmd],
                      dt.timedelta(seconds=10), dt.timedelta(seconds=10))
    if exc != 'ok':
      break
    subs.append(rec_state(twin.state))
    if subs[-1]['status'] != 'OK':
      break
  return subs


def sim_event(balloon, atm, u, v, cmd, n):
  S = sim()
  b = balloon.state
  sp0 = float(b.superpressure)
  wind = S.wind_field.WindVector(S.units.Velocity(mps=u), S.units.Velocity(mps=v))
  extra = dict(subs=twin_substeps(b, wind, atm, cmd, n)) if n > 1 else {}
  _, exc = kit.call(balloon.simulate_step, wind, atm, S.C[cmd],
                    dt.timedelta(seconds=10 * n), dt.timedelta(seconds=10))
  b = balloon.state
  return dict(ev='sim', cmd=cmd, u=kit.flt(u), v=kit.flt(v), n=n, exc=exc, s=rec_state(b),
              last=b.last_command.name, paused=bool(b.navigation_is_paused),
              soc=kit.flt(b.battery_soc), eff=effect(b, sp0), **extra)


def random_balloon(rng, enabled=None):
  """A balloon in a legal but arbitrary situation, and its atmosphere."""
  S = sim()
  u = S.units
  atm = S.standard_atmosphere.Atmosphere(S.jax.random.PRNGKey(rng.randrange(2**31)))
  start = dt.datetime(rng.choice([2011, 2012, 2013, 2014]), rng.randint(1, 12), rng.randint(1, 28),
                      rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), tzinfo=UTC)
  kw = {}
  if rng.random() < 0.3:
    kw.update(envelope_volume_base=rng.uniform(1600, 2000),
              envelope_volume_dv_pressure=rng.uniform(0.01, 0.03),
              envelope_mass=rng.uniform(60, 75), payload_mass=rng.uniform(85, 100),
              envelope_max_superpressure=rng.uniform(1500, 2600),
              envelope_cod=rng.uniform(0.2, 0.3),
              nighttime_power_load=u.Power(watts=rng.uniform(120, 250)),
              daytime_power_load=u.Power(watts=rng.uniform(80, 150)),
              acs_valve_hole_diameter=u.Distance(m=rng.uniform(0.03, 0.05)),
              battery_capacity=u.Energy(watt_hours=rng.uniform(2000, 4000)))
  cap = kw['battery_capacity'].watt_hours if kw else 3058.56
  b = S.balloon.BalloonState(
      center_latlng=S.s2.LatLng.from_degrees(
          rng.choice([rng.uniform(-10, 10), rng.uniform(-45, 45)]), rng.uniform(-175, 175)),
      date_time=start,
      time_elapsed=dt.timedelta(seconds=rng.choice([0, 0, 180 * rng.randrange(900)])),
      x=u.Distance(km=rng.gauss(0, 150)), y=u.Distance(km=rng.gauss(0, 150)),
      pressure=rng.uniform(5600, 12500),
      upwelling_infrared=rng.choice([250.0, rng.uniform(225, 315)]),
      battery_charge=u.Energy(watt_hours=cap * rng.choice(
          [1.0, 0.95, rng.random(), 0.002 * rng.random()])),
      power_safety_layer_enabled=(rng.random() < 0.7) if enabled is None else enabled, **kw)
  S.stable_init.cold_start_to_stable_params(b, atm)
  # Perturb the stable state: far and close to the envelope limits.
  if rng.random() < 0.6:
    b.internal_temperature = b.internal_temperature + rng.gauss(0, 8)
    if rng.random() < 0.6:
      b.mols_air = max(0.0, float(b.mols_air) + rng.gauss(0, 250))
    b.envelope_volume, b.superpressure = S.balloon.calculate_superpressure_and_volume(
        b.mols_lift_gas, b.mols_air, b.internal_temperature, b.pressure,
        b.envelope_volume_base, b.envelope_volume_dv_pressure)
  if rng.random() < 0.15:   # close to bursting or to losing superpressure
    want = rng.choice([0.5, 5.0, 200.0, 280.0, b.envelope_max_superpressure - rng.uniform(-2, 5),
                       b.envelope_max_superpressure - rng.uniform(0, 320)])
    v = b.envelope_volume_base + b.envelope_volume_dv_pressure * want
    mols = (want + b.pressure) * v / (8.3144621 * b.internal_temperature)
    b.mols_air = max(0.0, mols - b.mols_lift_gas)
    b.envelope_volume, b.superpressure = S.balloon.calculate_superpressure_and_volume(
        b.mols_lift_gas, b.mols_air, b.internal_temperature, b.pressure,
        b.envelope_volume_base, b.envelope_volume_dv_pressure)
  b.ambient_temperature = atm.at_pressure(b.pressure).temperature
  return S.balloon.Balloon(b), atm


class Commands:
  """Command sequences: runs of one command, alternation, or noise."""

  def __init__(self, rng):
    self.rng, self.cur, self.p = rng, rng.choice(['DOWN', 'STAY', 'UP']), rng.choice([0.03, 0.2, 1.0])

  def __call__(self):
    if self.rng.random() < self.p:
      self.cur = self.rng.choice(['DOWN', 'DOWN', 'STAY', 'UP'])
    return self.cur


def balloon_flight(rng, steps, n):
  balloon, atm = random_balloon(rng)
  t = [begin(balloon.state, atm)]
  cmd = Commands(rng)
  for _ in range(steps):
    if balloon.state.status.name != 'OK':
      t.append(refused(lambda: sim_event(balloon, atm, 3.0, 4.0, cmd(), n), lambda: balloon.state))
      break
    e = sim_event(balloon, atm, rng.gauss(0, 10), rng.gauss(0, 10), cmd(), n)
    t.append(e)
    if e['exc'] != 'ok':
      break
  return t


def refused(attempt, state):
  e = attempt()
  return dict(ev='refused', exc=e['exc'] if isinstance(e, dict) else e, s=rec_state(state()))


def make_windfield(kind, rng):
  S = sim()
  W = S.wind_field
  co = [rng.uniform(-6, 6) for _ in range(8)]

  class Analytic(W.WindField):
    """Ground truth and forecast are unrelated, so they cannot be confused."""

    def reset_forecast(self, key, date_time):
      pass

    def get_forecast(self, x, y, pressure, elapsed_time):
      return W.WindVector(S.units.Velocity(mps=31.0), S.units.Velocity(mps=-17.0))

    def get_ground_truth(self, x, y, pressure, elapsed_time):
      h = elapsed_time.total_seconds() / 3600.0
      g = lambda a, b, c, d: (a + b * math.sin(x.meters / 90000.0 + y.meters / 130000.0)
                              + c * math.cos(pressure / 900.0) + d * math.sin(h / 3.0))
      return W.WindVector(S.units.Velocity(mps=g(*co[:4])), S.units.Velocity(mps=g(*co[4:])))

  wf = Analytic() if kind == 'analytic' else W.SimpleStaticWindField()
  return wf, co


def light_features():
  """A feature constructor that costs nothing (simulator-only checks)."""
  S = sim()
  import numpy as np

  class Nothing(S.features.FeatureConstructor):

    def __init__(self, forecast, atmosphere): pass

    def observe(self, observation): pass

    def get_features(self): return np.zeros(1, dtype=np.float32)

    @property
    def observation_space(self):
      import gym
      return gym.spaces.Box(0, 1, shape=(1,))

  return Nothing


class EnvDriver:

  def __init__(self, rng, kind='analytic', light=True, seed=None):
    S = sim()
    self.rng = rng
    self.wf, self.co = make_windfield(kind, rng)
    self.kind = kind
    kw = dict(feature_constructor_factory=light_features()) if light else {}
    self.env = S.balloon_env.BalloonEnv(
        wind_field_factory=lambda: self.wf,
        seed=rng.randrange(2**31) if seed is None else seed, **kw)
    self.t = []

  @property
  def b(self):
    return self.env.arena.get_balloon_state()

  def truth(self, b):
    w = self.wf.get_ground_truth(b.x, b.y, b.pressure, b.time_elapsed)
    return w.u.meters_per_second, w.v.meters_per_second

  def begin(self, ephemeris_from=None):
    S = sim()
    b = self.b
    e = begin(b, self.env.get_simulator_state().atmosphere, ephemeris_from)
    if self.kind == 'analytic':
      e['co'] = [kit.flt(c) for c in self.co]
    self.t.append(e)
    self.now = b

  def step(self, cmd):
    S = sim()
    b = self.b
    u, v = self.truth(b)
    sp0 = float(b.superpressure)
    wind = S.wind_field.WindVector(S.units.Velocity(mps=u), S.units.Velocity(mps=v))
    subs = twin_substeps(b, wind, self.env.get_simulator_state().atmosphere, cmd, 18)
    r, exc = kit.call(self.env.step, int(S.C[cmd]))
    b = self.b
    e = dict(ev='env', cmd=cmd, u=kit.flt(u), v=kit.flt(v), exc=exc, s=rec_state(b),
             last=b.last_command.name, paused=bool(b.navigation_is_paused),
             soc=kit.flt(b.battery_soc), eff=effect(b, sp0), subs=subs)
    if exc == 'ok':
      obs, rew, term, info = r
      m = self.env.arena.get_measurements()
      u3, v3 = self.truth(b)
      e.update(terminal=bool(term), fp=bool(info['out_of_power']), fb=bool(info['envelope_burst']),
               fz=bool(info['zeropressure']), itime=kit.flt(info['time_elapsed'].total_seconds()),
               reward=kit.flt(rew), u2=kit.flt(m.wind_at_balloon.u.meters_per_second),
               v2=kit.flt(m.wind_at_balloon.v.meters_per_second), u3=kit.flt(u3), v3=kit.flt(v3))
    self.t.append(e)
    return e


  def move(self):
    """Somebody puts the balloon elsewhere."""
    S, rng = sim(), self.rng
    b = copy.deepcopy(self.b) if rng.random() < 0.7 else self.b
    if rng.random() < 0.8:
      b.pressure = rng.uniform(6600.0, 11000.0)
      S.stable_init.cold_start_to_stable_params(b, self.env.get_simulator_state().atmosphere)
    else:
      b.x, b.y = S.units.Distance(km=rng.uniform(-300, 300)), S.units.Distance(km=rng.uniform(-300, 300))
    self.env.arena.set_balloon_state(b)
    self.t.append(poke_event(self.b))


def env_flight(rng, steps, kind='analytic', light=True, drama=None, drv=None):
  """One or two episodes of an environment, some made to end early."""
  S = sim()
  d = drv or EnvDriver(rng, kind, light)
  d.t = []
  d.env.reset(seed=rng.randrange(2**31))
  b = d.b
  eph = (b.latlng, b.date_time)
  drama = drama if drama is not None else rng.choice(['', '', 'power', 'burst', 'zero'])
  if drama == 'power':
    b.battery_charge = S.units.Energy(watt_hours=rng.uniform(0.5, 30))
    b.date_time = b.date_time
  elif drama in ('burst', 'zero'):
    want = b.envelope_max_superpressure - rng.uniform(-1, 4) if drama == 'burst' else rng.uniform(0.1, 5)
    v = b.envelope_volume_base + b.envelope_volume_dv_pressure * want
    b.mols_air = max(0.0, (want + b.pressure) * v / (8.3144621 * b.internal_temperature) - b.mols_lift_gas)
    b.envelope_volume, b.superpressure = S.balloon.calculate_superpressure_and_volume(
        b.mols_lift_gas, b.mols_air, b.internal_temperature, b.pressure,
        b.envelope_volume_base, b.envelope_volume_dv_pressure)
  d.begin(eph)
  cmd = Commands(rng)
  for _ in range(steps):
    if rng.random() < 0.06:
      d.move()
    e = d.step(cmd())
    if e['exc'] != 'ok':
      break
    if e['s']['status'] != 'OK':
      for _ in range(2):
        _, exc = kit.call(d.env.step, int(S.C[cmd()]))
        d.t.append(dict(ev='refused', exc=exc, s=rec_state(d.b)))
      break
  return d.t


def flight_traces(c, sub=(60, 60), step=(20, 40), env=(10, 40)):
  """Standard mix of recorded flights. Each pair: (flights, steps)."""
  rng, ts = c.rng, []
  for _ in range(sub[0]):
    ts.append(balloon_flight(rng, sub[1], 1))
  for _ in range(step[0]):
    ts.append(balloon_flight(rng, step[1], 18))
  drivers = [EnvDriver(rng, 'analytic'), EnvDriver(rng, 'static')] if env[0] else []
  for i in range(env[0]):
    ts.append(env_flight(rng, env[1], drv=drivers[i % 2]))
  n = {}
  for t in ts:
    for e in t:
      k = e['ev'] + ':' + e['s']['status'] + ':' + e.get('eff', '')
      n[k] = n.get(k, 0) + 1
  c.cov['events_by_kind'] = n
  return ts


# ------------------------------------------------------- replay of the models
def set_superpressure(b, want):
  """Chooses the ballonet air so that the envelope has this superpressure."""
  S = sim()
  v = b.envelope_volume_base + b.envelope_volume_dv_pressure * want
  b.mols_air = max(0.0, (want + b.pressure) * v / (8.3144621 * b.internal_temperature) - b.mols_lift_gas)
  b.envelope_volume, b.superpressure = S.balloon.calculate_superpressure_and_volume(
      b.mols_lift_gas, b.mols_air, b.internal_temperature, b.pressure,
      b.envelope_volume_base, b.envelope_volume_dv_pressure)


def poke_event(b):
  return dict(ev='poke', k=rec_vehicle(b), s=rec_state(b))


EPISODE = '''SPECIFICATION SpecE
CONSTANT MaxSteps = %d
INVARIANTS TypeOK TerminalIffNotOk AtMostOneCause EmitInit
PROPERTIES Absorbing NoTimeInTerminal
CHECK_DEADLOCK FALSE
'''


def episode_traces(c):
  """Every transition of the episode model, flown in environments and as single substeps."""
  g = kit.Graph(c.model('MC_Episode', EPISODE % c.n(3, 6), workers=1))
  drivers = [EnvDriver(c.rng, k) for k in ('analytic', 'static')]
  ts = []
  for _ in range(c.n(1, 6)):
    for i, (_, path) in enumerate(g.tour(c.rng, max_len=30)):
      ts.append(episode_replay(c.rng, path, drivers[i % 2]))
  for _ in range(c.n(2, 20)):
    for over, flat in ((0, 0), (1, 0), (0, 1)):
      for empty in (0, 1):
        balloon, atm = random_balloon(c.rng)
        b = balloon.state
        if over: set_superpressure(b, b.envelope_max_superpressure + c.rng.uniform(20, 300))
        if flat: b.mols_lift_gas, b.mols_air = 5500.0, 0.0
        if empty:
          b.battery_charge = sim().units.Energy(watt_hours=c.rng.choice([0.0, 0.05, 1e-6]))
          b.nighttime_power_load = b.daytime_power_load = sim().units.Power(watts=c.rng.uniform(2000, 9000))
        t = [begin(b, atm)]
        for _ in range(2):
          e = sim_event(balloon, atm, 1.0, -2.0, c.rng.choice(['DOWN', 'STAY', 'UP']), 1)
          t.append(e)
          if e['exc'] != 'ok' or e['s']['status'] != 'OK': break
        ts.append(t)
  c.cov['model_edges_replayed'] = g.n_edges
  return ts


def episode_replay(rng, path, drv):
  """Drives an environment along a path of MC_Episode."""
  S = sim()
  d = drv
  d.t = []

  def reset():
    d.env.reset(seed=rng.randrange(2**31) if rng.random() < 0.5 else None)
    d.begin()

  reset()
  cmd = Commands(rng)
  for a, _ in path:
    if a['kind'] == 'reset':
      reset()
    elif a['kind'] == 'refuse':
      _, exc = kit.call(d.env.step, int(S.C[cmd()]))
      d.t.append(dict(ev='refused', exc=exc, s=rec_state(d.b)))
    else:
      c, b = a['c'], d.b
      poked = False
      if c['over']:
        set_superpressure(b, b.envelope_max_superpressure + rng.uniform(50, 300)); poked = True
      if c['flat']:
        b.mols_lift_gas, b.mols_air = 5500.0, 0.0; poked = True
      if c['empty']:
        # So large a load that the battery is empty at the first substep.
        b.nighttime_power_load = b.daytime_power_load = S.units.Power(watts=1.0e7); poked = True
      if poked:
        d.t.append(poke_event(b))
      e = d.step(cmd())
      if e['exc'] != 'ok' or (e['s']['status'] == 'OK') != (not any(c.values())):
        break  # the trace judge sees what happened; the path cannot go on
  return d.t


def layer_walk(rng, steps, enabled):
  """A balloon pushed through the zones of all three layers at once."""
  S = sim()
  balloon, atm = random_balloon(rng, enabled)
  b = balloon.state
  t = [begin(b, atm)]
  rise = dt.datetime.fromtimestamp(float(t[0]['rise']), UTC)
  cmd, covered = Commands(rng), set()
  ft = lambda feet: atm.at_height(S.units.Distance(feet=feet)).pressure
  az, ez, pz = 'nominal', 'nominal', 'any'
  for _ in range(steps):
    if rng.random() < 0.55:
      az = rng.choice(['very_low', 'low', 'hysteresis', 'nominal'])
    if rng.random() < 0.55:
      ez = rng.choice(['low_critical', 'low', 'low_hyst', 'nominal', 'high_hyst', 'high', 'high_critical'])
    if rng.random() < 0.4:
      pz = rng.choice(['any', 'starved', 'full', 'full'])
    feet = {'very_low': (48000, 49990), 'low': (50005, 50495), 'hysteresis': (50505, 50995),
            'nominal': (51005, 60000)}[az]
    m = b.envelope_max_superpressure
    sp = {'low_critical': (5, 149), 'low': (151, 249), 'low_hyst': (251, 299), 'nominal': (301, m - 301),
          'high_hyst': (m - 299, m - 251), 'high': (m - 249, m - 151), 'high_critical': (m - 149, m - 60)}[ez]
    b.pressure = ft(rng.uniform(*feet))
    b.ambient_temperature = atm.at_pressure(b.pressure).temperature
    b.mols_lift_gas = 6000.0
    set_superpressure(b, rng.uniform(*sp))
    cap = b.battery_capacity.watt_hours
    wh = {'any': rng.uniform(0.03, 1) * cap, 'starved': rng.uniform(0.005, 0.3) * cap,
          'full': rng.uniform(0.9, 1.0) * cap}[pz]
    b.battery_charge = S.units.Energy(watt_hours=wh)
    jump = rng.choice([0, 0, 60, 3600, 7200, 20000])
    b.date_time = b.date_time + dt.timedelta(seconds=jump)
    t.append(poke_event(b))
    e = sim_event(balloon, atm, rng.gauss(0, 5), rng.gauss(0, 5), cmd(), 1)
    t.append(e)
    covered.add((az, ez, e['cmd'], e['paused'], enabled))
    if e['exc'] != 'ok' or e['s']['status'] != 'OK':
      break
  return t, covered


# ------------------------------------------------- single laws, T_Physics.tla
def physics(rng, n, kinds):
  S = sim()
  u, f = S.units, kit.flt
  t = [dict(ev='begin')]
  last, air = None, None
  for _ in range(n):
    k = rng.choice(kinds)
    if k == 'acs':
      r = rng.choice([rng.uniform(0.95, 1.5), 1.0 + 0.025 * rng.randrange(0, 16),
                      rng.choice([1.0, 1.05, 1.2, 1.25, 1.35, 0.5, 3.0])])
      w = rng.choice([rng.uniform(80, 450), 100.0 * rng.randrange(1, 5), rng.uniform(0, 1000)])
      v, exc = kit.call(S.acs.get_most_efficient_power, r)
      t.append(dict(ev='power', ratio=f(r), exc=exc, w=f(v.watts) if v is not None else '0'))
      v, exc = kit.call(S.acs.get_fan_efficiency, r, u.Power(watts=w))
      t.append(dict(ev='eff', ratio=f(r), w=f(w), exc=exc, eff=f(v)))
      e = rng.uniform(0, 0.5)
      v, exc = kit.call(S.acs.get_mass_flow, u.Power(watts=w), e)
      t.append(dict(ev='flow', w=f(w), eff=f(e), exc=exc, flow=f(v)))
    elif k == 'envelope':
      v0, dv = rng.choice([(1804.0, 0.0199), (rng.uniform(1500, 2000), rng.uniform(0.005, 0.05))])
      p, ti = rng.uniform(4000, 16000), rng.uniform(180, 260)
      target = v0 * rng.choice([rng.uniform(0.3, 1.0), rng.uniform(1.0, 1.6), 1 + rng.gauss(0, 1e-3)])
      mols = target * p / (8.3144621 * ti)
      mair = rng.choice([0.0, rng.uniform(0, 0.4) * mols])
      mhe = mols - mair
      if air and rng.random() < 0.4:
        mine, k = (mhe, mair, ti, p, v0, dv), rng.randrange(6)
        mhe, mair, ti, p, v0, dv = air[:k] + (mine[k],) + air[k + 1:]
      air = (mhe, mair, ti, p, v0, dv)
      r, exc = kit.call(S.balloon.calculate_superpressure_and_volume, mhe, mair, ti, p, v0, dv)
      vol, sp = r if exc == 'ok' else (0, 0)
      t.append(dict(ev='envelope', mhe=f(mhe), mair=f(mair), ti=f(ti), p=f(p), v0=f(v0), dv=f(dv),
                    exc=exc, vol=f(vol), sp=f(sp)))
    else:
      a = dict(vol=rng.uniform(1200, 2200), mass=rng.uniform(50, 80), tb=rng.uniform(185, 255),
               ta=rng.uniform(185, 230), p=rng.uniform(4000, 16000),
               el=rng.choice([rng.uniform(-90, 90), rng.uniform(-6, 2)]),
               flux=rng.uniform(1310, 1415), ir=rng.uniform(150, 320))
      if last and rng.random() < 0.4:   # what was asked before, but for one thing
        k = rng.choice(list(a))
        a = dict(last, **{k: a[k]})
      last = a
      v, exc = kit.call(S.thermal.d_balloon_temperature_dt, a['vol'], a['mass'], a['tb'], a['ta'], a['p'],
                        a['el'], a['flux'], a['ir'])
      t.append(dict(ev='thermal', exc=exc, rate=f(v), **{k: f(x) for k, x in a.items()}))
  return t
