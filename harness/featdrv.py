"""Records observations of the real feature constructor, for T_Features.tla."""
import datetime as dt
import math
import kit, simdrv

F = kit.flt


def lib():
  S = simdrv.sim()
  if not hasattr(S, 'F'):
    from balloon_learning_environment.env import features, simulator_data, wind_gp
    from balloon_learning_environment.env.balloon import power_table, pressure_range_builder
    from balloon_learning_environment.utils import transforms, sampling
    S.F, S.sd, S.wind_gp, S.power_table = features, simulator_data, wind_gp, power_table
    S.prb, S.transforms, S.sampling = pressure_range_builder, transforms, sampling
  return S


def random_state(rng, vehicle=False):
  """A balloon somewhere a real one could be; stable, then disturbed."""
  S = lib()
  u = S.units
  atm = S.standard_atmosphere.Atmosphere(S.jax.random.PRNGKey(rng.randrange(2**31)))
  t = dt.datetime(rng.choice([2011, 2012, 2013, 2014]), rng.randint(1, 12), rng.randint(1, 28),
                  rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), tzinfo=simdrv.UTC)
  kw = {}
  if vehicle:
    kw.update(envelope_volume_base=rng.uniform(1750, 1850),
              envelope_volume_dv_pressure=rng.uniform(0.015, 0.025),
              envelope_mass=rng.uniform(65, 72), payload_mass=rng.uniform(88, 97),
              envelope_max_superpressure=rng.uniform(900, 2600),
              daytime_power_load=u.Power(watts=rng.uniform(80, 400)),
              battery_capacity=u.Energy(watt_hours=rng.uniform(2500, 3500)))
  cap = kw['battery_capacity'].watt_hours if kw else 3058.56
  r = rng.choice([0.0, 1e-7, rng.uniform(0, 1e-3), rng.uniform(0, 49), rng.uniform(0, 200), rng.uniform(200, 900)])
  th = rng.choice([rng.uniform(0, 2 * math.pi), rng.randrange(4) * math.pi / 2])
  x, y = 1000 * r * math.cos(th), 1000 * r * math.sin(th)
  if rng.random() < 0.1: x = 0.0
  b = S.balloon.BalloonState(
      center_latlng=S.s2.LatLng.from_degrees(rng.uniform(-10, 10), rng.uniform(-175, 175)),
      date_time=t, time_elapsed=dt.timedelta(seconds=180 * rng.choice([0, rng.randrange(960)])),
      x=u.Distance(m=x), y=u.Distance(m=y),
      pressure=rng.choice([rng.uniform(6500, 11800), rng.uniform(6500, 11800), rng.uniform(4000, 16000)]),
      upwelling_infrared=rng.choice([250.0, rng.uniform(225, 315)]),
      battery_charge=u.Energy(watt_hours=cap * rng.choice([1.0, rng.uniform(0.985, 1.0), rng.random(), rng.random()])),
      **kw)
  S.stable_init.cold_start_to_stable_params(b, atm)
  b.superpressure = max(0.0, rng.choice([float(b.superpressure), rng.uniform(0, 2400), 0.0]))
  b.last_command = S.C[rng.choice(['UP', 'STAY', 'DOWN'])]
  b.acs_power = u.Power(watts=rng.choice([0.0, rng.uniform(80, 420), 100.0, 200.0, 300.0]))
  pause = rng.choice(['', '', 'alt', 'env', 'pow'])
  if pause == 'alt':
    b.altitude_safety_layer.get_action(S.C.STAY, atm, atm.at_height(u.Distance(feet=49000)).pressure)
  elif pause == 'env':
    b.envelope_safety_layer.get_action(S.C.STAY, rng.choice([50.0, b.envelope_max_superpressure - 50]))
  elif pause == 'pow':
    night = b.date_time
    for _ in range(24):
      b.power_safety_layer.get_action(S.C.DOWN, night, b.nighttime_power_load, u.Energy(watt_hours=1.0), b.battery_capacity)
      if b.power_safety_layer.navigation_is_paused: break
      night = night + dt.timedelta(hours=1)
  return b, atm


def describe(b):
  S = lib()
  rise, sset = S.solar.get_next_sunrise_sunset(b.latlng, b.date_time)
  s = simdrv.rec_state(b)
  s.update(last=b.last_command.name, paused=bool(b.navigation_is_paused),
           rise=F(simdrv.ts_of(rise)), set=F(simdrv.ts_of(sset)))
  return dict(k=simdrv.rec_vehicle(b), s=s)


class Forecast:
  """An analytic forecast, different at every point."""

  def __new__(cls, rng):
    S = lib()
    W, u = S.wind_field, S.units
    a = [rng.uniform(-5, 5) for _ in range(8)]
    calm = rng.random() < 0.1

    class Field(W.WindField):

      def reset_forecast(self, key, date_time):
        pass

      def get_forecast(self, x, y, pressure, elapsed_time):
        if calm: return W.WindVector(u.Velocity(mps=0.0), u.Velocity(mps=0.0))
        h = elapsed_time.total_seconds() / 3600.0
        f = lambda i: (a[i] + a[i + 1] * math.sin(x.meters / 7e4 + 0.3 * i) * math.cos(y.meters / 9e4)
                       + a[i + 2] * math.sin(pressure / 800.0 + i) + a[i + 3] * math.sin(h / 2.0))
        return W.WindVector(u.Velocity(mps=f(0)), u.Velocity(mps=f(4)))

    return Field()


def wind(rng, scale=8):
  S = lib()
  return S.wind_field.WindVector(S.units.Velocity(mps=rng.gauss(0, scale)), S.units.Velocity(mps=rng.gauss(0, scale)))


def history(rng, b, n):
  """n earlier positions of the balloon: (dx, dy, dp, seconds ago)."""
  out, x, y, p = [], b.x.meters, b.y.meters, b.pressure
  for i in range(n):
    x, y, p = x + rng.gauss(0, 2000), y + rng.gauss(0, 2000), min(14000, max(5000, p + rng.gauss(0, 60)))
    out.append((x, y, p, 180 * (i + 1)))
  return [o for o in reversed(out) if o[3] <= b.time_elapsed.total_seconds()]


def constructor(rng, b, atm, n_hist=None):
  """A feature constructor that has observed a short flight ending in b.

  Also an independent wind model fed with the same measurements.
  """
  S = lib()
  fc_field = Forecast(rng)
  fc = S.F.PerciatelliFeatureConstructor(fc_field, atm)
  gp = S.wind_gp.WindGP(fc_field)
  for (x, y, p, ago) in history(rng, b, rng.choice([0, 0, 1, 4, 12]) if n_hist is None else n_hist):
    past = S.balloon.BalloonState(center_latlng=b.center_latlng, date_time=b.date_time - dt.timedelta(seconds=ago),
                                  time_elapsed=b.time_elapsed - dt.timedelta(seconds=ago), pressure=p,
                                  x=S.units.Distance(m=x), y=S.units.Distance(m=y),
                                  superpressure=rng.uniform(0, 500),
                                  last_command=S.C[rng.choice(['UP', 'STAY', 'DOWN'])])
    w = wind(rng)
    fc.observe(S.sd.SimulatorObservation(balloon_observation=past, wind_at_balloon=w))
    gp.observe(past.x, past.y, past.pressure, past.time_elapsed, w)
    if rng.random() < 0.2:
      kit.call(fc.get_features)
  w = wind(rng, rng.choice([8, 8, 1e-6]))
  fc.observe(S.sd.SimulatorObservation(balloon_observation=b, wind_at_balloon=w))
  gp.observe(b.x, b.y, b.pressure, b.time_elapsed, w)
  return fc, gp


def km10(atm):
  return F(atm.at_height(lib().units.Distance(km=10)).temperature)


def ambient_event(b, atm, fc, f, exc):
  import numpy as np
  d = describe(b)
  if exc != 'ok':
    return dict(ev='ambient', exc=exc, t10=km10(atm), **d)
  sp = fc.observation_space
  return dict(ev='ambient', exc=exc, t10=km10(atm), amb=[F(v) for v in f[:16]],
              low=[F(v) for v in sp.low[:16]], high=[F(v) for v in sp.high[:16]],
              inspace=bool(np.all(np.isfinite(f)) and sp.shape == f.shape
                           and np.all(f >= sp.low) and np.all(f <= sp.high + 1e-4)),
              n=int(len(f)), spacen=int(sp.shape[0]), **d)


def column_event(b, atm, gp, f, exc):
  import numpy as np
  d = describe(b)
  if exc != 'ok':
    return dict(ev='column', exc=exc, t10=km10(atm), **d)
  q = np.array([[b.x.meters, b.y.meters, 5000.0 + 50 * i, b.time_elapsed.total_seconds()] for i in range(181)])
  est, dev = gp.query_batch(q)
  return dict(ev='column', exc=exc, t10=km10(atm), wind=[F(v) for v in f[16:]],
              est=[F(v) for v in np.asarray(est).reshape(-1)], dev=[F(v) for v in dev], **d)


def features_of(rng, b, atm, n_hist=None):
  fc, gp = constructor(rng, b, atm, n_hist)
  f, exc = kit.call(fc.get_features)
  return fc, gp, f, exc


def changed(rng, b, ways=('hour', 'gas', 'limit', 'infrared', 'pressure', 'far')):
  """The balloon somewhat later: another hour, other gas, limit, warmth, pressure or place."""
  import copy
  b = copy.copy(b)
  for what in rng.sample(ways, rng.randrange(1, 4)):
    if what == 'hour':
      d = dt.timedelta(seconds=rng.choice([180, 3600, 12 * 3600]))
      b.date_time, b.time_elapsed = b.date_time + d, b.time_elapsed + d
    elif what == 'gas':
      b.mols_lift_gas *= rng.uniform(0.96, 1.02)
    elif what == 'limit':
      b.envelope_max_superpressure = rng.uniform(900, 2600)
    elif what == 'infrared':
      b.upwelling_infrared = rng.uniform(225, 315)
    elif what == 'pressure':
      b.pressure = min(16000.0, max(4000.0, b.pressure + rng.choice([rng.uniform(-60, 60), rng.uniform(-800, 800)])))
    else:
      b.x = b.x + lib().units.Distance(km=rng.uniform(-20, 20))
  return b


def env_driver(rng):
  """An environment with real features over the analytic wind."""
  return simdrv.EnvDriver(rng, 'analytic', light=False)
