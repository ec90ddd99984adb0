"""Drives wind fields (public API only) and records their answers."""
import datetime as dt
import kit


class Lib: pass
_lib = None


def lib():
  global _lib
  if _lib is None:
    kit.setup_repo()
    import jax, numpy as np
    from balloon_learning_environment.env import grid_based_wind_field, grid_wind_field_sampler, wind_field, simplex_wind_noise, generative_wind_field
    from balloon_learning_environment.generative import vae
    from balloon_learning_environment.utils import units
    _random_decoder(vae)
    S = Lib()
    S.jax, S.np, S.units, S.vae = jax, np, units, vae
    S.grid, S.sampler, S.wf, S.noise, S.gen = grid_based_wind_field, grid_wind_field_sampler, wind_field, simplex_wind_noise, generative_wind_field
    _lib = S
  return _lib


def _random_decoder(vae):
  """The trained decoder is not shipped: a random one, set through gin."""
  import os, flax, gin, jax
  params = jax.tree_util.tree_map(lambda a: a * 1.5, vae.Decoder().init(jax.random.PRNGKey(3), jax.numpy.zeros(64)))
  path = os.path.join(kit.workdir(), 'decoder.msgpack')
  with open(path, 'wb') as f:
    f.write(flax.serialization.msgpack_serialize(flax.core.unfreeze(params)))
  with gin.unlock_config():
    gin.bind_parameter('load_offlineskies22.path', path)


def stub_sampler(shape, scale):
  S = lib()

  class Stub(S.sampler.GridWindFieldSampler):
    @property
    def field_shape(self): return shape

    def sample_field(self, key, date_time):
      return S.np.asarray(S.jax.random.normal(key, shape.grid_shape())) * scale
  return Stub()


def random_shape(rng):
  S = lib()
  if rng.random() < 0.2:
    return S.vae.FieldShape()
  return S.vae.FieldShape(
      latlng_slices=rng.randint(2, 5), pressure_slices=rng.randint(2, 5), time_slices=rng.choice([2, 3, 5, 9]),
      latlng_displacement_km=rng.choice([500.0, 125.5, rng.uniform(20, 900)]),
      max_pressure_pa=rng.choice([14000.0, 14000, rng.uniform(9000, 16000)]),
      min_pressure_pa=rng.choice([5000, 5000.0, rng.uniform(3000, 6000)]),
      time_horizon_hours=rng.choice([48, 48, 24, 13]))


def rec_shape(s):
  return dict(n=s.latlng_slices, np=s.pressure_slices, nt=s.time_slices, km=kit.flt(s.latlng_displacement_km),
              pmin=kit.flt(s.min_pressure_pa), pmax=kit.flt(s.max_pressure_pa), hours=kit.flt(s.time_horizon_hours))


def pair(w):
  return [kit.flt(w.u.meters_per_second), kit.flt(w.v.meters_per_second)]


def boomerang(t, h):
  k, r = divmod(t, h)
  return t if t < h else (r if k % 2 == 0 else h - r)


def cell(shape, field, x, y, p, t):
  """The cell the specification must find the point in, and its values."""
  q = [x, y, p, boomerang(t, shape.time_horizon_hours)]
  axes = [[float(v) for v in a] for a in (shape.latlng_grid_points(), shape.latlng_grid_points(),
                                          shape.pressure_grid_points(), shape.time_grid_points())]
  c = [max([0] + [i for i in range(len(a) - 1) if a[i] <= v]) for a, v in zip(axes, q)]
  corner = [[c[a] + (k >> (3 - a) & 1) for a in range(4)] for k in range(16)]
  return dict(c=c, uu=[kit.flt(field[tuple(i)][0]) for i in corner], vv=[kit.flt(field[tuple(i)][1]) for i in corner])


class Fields:
  """Two wind fields of one kind and what is needed to judge their answers."""

  def __init__(self, rng, kind, edges=False):
    S = lib()
    self.rng, self.kind = rng, kind
    self.sampler = None
    if kind == 'static':
      make = S.wf.SimpleStaticWindField
    elif kind == 'grid':
      self.sampler = stub_sampler(random_shape(rng), rng.choice([1.0, 10.0]))
      make = lambda: S.grid.GridBasedWindField(self.sampler)
    else:
      self.sampler = S.gen.GenerativeWindFieldSampler()
      make = (lambda: S.grid.GridBasedWindField(self.sampler)) if kind == 'gen' else S.gen.GenerativeWindField
    self.shape = self.sampler.field_shape if self.sampler else None
    self.w = {1: make(), 2: make()}
    self.keyed = {1: 'none', 2: 'none'}
    self.given = []
    self.keys = {k: S.jax.random.PRNGKey(rng.randrange(2**31)) for k in 'ab'}
    self.date = dt.datetime(2011 + rng.randrange(4), 1 + rng.randrange(12), 3, tzinfo=dt.timezone.utc)
    self.reference = {}
    for k, key in self.keys.items():
      noise_key, forecast_key = S.jax.random.split(key, num=2)
      m = S.wf.SimplexWindNoise()
      m.reset_wind_noise(noise_key, self.date)
      f = self.sampler.sample_field(forecast_key, self.date) if self.sampler else None
      self.reference[k] = (m, f)
    self.points = {p: self.random_point() for p in (1, 2)}
    self.t = [dict(ev='begin', kind='static' if kind == 'static' else 'grid', shape=rec_shape(self.shape) if self.shape else [])]

  def random_point(self):
    """x, y in km, five pressures, time in hours: often at or beyond an edge."""
    rng = self.rng
    s = self.shape
    km = s.latlng_displacement_km if s else 500.0
    lo, hi = (s.min_pressure_pa, s.max_pressure_pa) if s else (5000.0, 14000.0)
    h = s.time_horizon_hours if s else 48
    axis = lambda: rng.choice([rng.uniform(-km, km)] * 3 + [km, -km, rng.uniform(-5, 5) * km, 0.0, 100 * km])
    press = lambda: int(rng.uniform(lo, hi)) if rng.random() < 0.2 else rng.choice([rng.uniform(lo, hi)] * 3 + [lo, hi, rng.uniform(0.2, 3) * lo, int(rng.uniform(lo, hi)),
                                                                   lib().np.float32(rng.uniform(lo, hi))]
                               + [8000.0, 10000.0, 12000.0, rng.choice([7999.5, 9999.5, 11999.5])] * (self.kind == 'static'))
    secs = rng.choice([rng.uniform(0, h), rng.uniform(0, h), rng.uniform(h, 2 * h), rng.uniform(0, 9 * h), 0.0,
                       float(h), 2.0 * h, 3.0 * h, 200.0 * h + 1]) * 3600
    return axis(), axis(), [press() for _ in range(rng.choice([1, 3, 5]))], float(int(secs))

  def reset(self, i, k):
    _, exc = kit.call(self.w[i].reset, self.keys[k], self.date)
    self.keyed[i] = k
    self.t.append(dict(ev='reset', i=i, k=k, exc=exc))

  def query(self, i, op, pt, point=None):
    S = lib()
    D = S.units.Distance
    x, y, ps, sec = point or self.points[pt]
    if op != 'column':
      ps = ps[:1]
    X, Y, T = D(km=x), D(km=y), dt.timedelta(seconds=sec)
    w = self.w[i]
    e = dict(ev='query', i=i, op=op, pt=pt, x=kit.flt(x), y=kit.flt(y), ps=[kit.flt(p) for p in ps], t=kit.flt(sec / 3600))
    if op == 'forecast':
      a, e['exc'] = kit.call(w.get_forecast, X, Y, ps[0], T)
      a = [a]
    elif op == 'truth':
      a, e['exc'] = kit.call(w.get_ground_truth, X, Y, ps[0], T)
      a = [a]
    else:
      a, e['exc'] = kit.call(w.get_forecast_column, X, Y, ps, T)
    if e['exc'] == 'ok':
      e['res'] = [pair(v) for v in a]
      self.given.append((a, e['res']))
      if self.rng.random() < 0.1:
        was, res = self.rng.choice(self.given[-5:])
        self.t.append(dict(ev='kept', same=[pair(v) for v in was] == res))
      k = self.keyed[i]
      if op == 'truth':
        e['fc'] = pair(w.get_forecast(X, Y, ps[0], T))
        e['noise'] = pair(self.reference[k][0].get_wind_noise(X, Y, ps[0], T))
      if op == 'column':
        e['points'] = [pair(w.get_forecast(X, Y, p, T)) for p in ps]
      if self.sampler and op != 'truth' and k != 'none':
        f = self.reference[k][1]
        e['cells'] = [cell(self.shape, f, x, y, p, sec / 3600) for p in ps]
        e['lim'] = [kit.flt(z) for z in (f[..., 0].min(), f[..., 0].max(), f[..., 1].min(), f[..., 1].max())]
    self.t.append(e)

  def act(self, a):
    if a['op'] == 'reset':
      self.reset(a['i'], a['k'])
    else:
      self.query(a['i'], a['op'], a['p'])


def harmonics(rng, which):
  """Noise of one component next to the noise of its unit-spacing harmonics."""
  S = lib()
  N, D, f = S.noise, S.units.Distance, kit.flt
  key = S.jax.random.PRNGKey(rng.randrange(2**31))
  comp = N.NoisyWindComponent(which)
  t = [dict(ev='begin', kind='noise', shape=[])]
  _, exc = kit.call(comp.get_noise, D(km=1), D(km=1), 9000.0, dt.timedelta(hours=1))
  t.append(dict(ev='unset', exc=exc))
  comp.reset(key)
  spacings = dict(
      u=[(702.269, 2116.987, 2587.802, 245.0), (1483.570, 752.124, 646.208, 16.39), (276.810, 147.040, 587.702, 3.836),
         (10214.525, 1512.216, 965.629, 41.780), (181.286, 420.942, 8500.0, 245.0)],
      v=[(1974.228, 2028.814, 713.697, 26.435), (699.738, 541.845, 632.116, 9.530), (217.750, 196.522, 686.825, 3.546),
         (47.500, 43.048, 66.553, 8.424), (3663.291, 232.023, 7499.741, 225.0)])[which]
  unit = []
  for k in S.jax.random.split(key, num=5):
    h = N.NoisyWindHarmonic(N.HarmonicParameters(1.0, 1.0, 1.0, 1.0, 1.0))
    h.reset(k)
    unit.append(h)
  for _ in range(6):
    x, y, p, hr = rng.uniform(-300, 300), rng.uniform(-300, 300), rng.uniform(5000, 14000), rng.uniform(0, 70)
    val = comp.get_noise(D(km=x), D(km=y), p, dt.timedelta(hours=hr))
    at, base = [], []
    for h, (a, b, c, d) in zip(unit, spacings):
      at.append([f(x / a), f(y / b), f(p / c), f(hr / d)])
      base.append(f(h.get_noise(D(km=x / a), D(km=y / b), p / c, dt.timedelta(hours=hr / d))))
    t.append(dict(ev='harmonics', which=which, x=f(x), y=f(y), p=f(p), t=f(hr), value=f(val), at=at, base=base))
  return t


def variance(rng, n):
  S = lib()
  D = S.units.Distance
  xs, ys = [], []
  for _ in range(12):
    m = S.wf.SimplexWindNoise()
    m.reset_wind_noise(S.jax.random.PRNGKey(rng.randrange(2**31)), dt.datetime(2012, 1, 1, tzinfo=dt.timezone.utc))
    for _ in range(n // 12):
      w = m.get_wind_noise(D(km=rng.uniform(-2e4, 2e4)), D(km=rng.uniform(-2e4, 2e4)), rng.uniform(1000, 30000),
                           dt.timedelta(hours=rng.uniform(0, 3000)))
      xs.append(kit.flt(w.u.meters_per_second))
      ys.append(kit.flt(w.v.meters_per_second))
  return [dict(ev='begin', kind='noise', shape=[]), dict(ev='variance', xs=xs, ys=ys), dict(ev='variance', xs=ys, ys=xs)]


def adds(rng):
  S = lib()
  V = S.units.Velocity
  t = [dict(ev='begin', kind='noise', shape=[])]
  for _ in range(20):
    a = S.wf.WindVector(V(mps=rng.gauss(0, 9)), V(mps=rng.gauss(0, 9)))
    b = S.wf.WindVector(V(mps=rng.gauss(0, 9)), V(mps=rng.gauss(0, 9)))
    r, exc = kit.call(a.add, b)
    t.append(dict(ev='add', valid=True, exc=exc, a=pair(a), b=pair(b), res=pair(r) if r else []))
  for b in (3.0, None, V(mps=2), (V(mps=1), V(mps=1))):
    r, exc = kit.call(a.add, b)
    t.append(dict(ev='add', valid=False, exc=exc, a=pair(a), b=[], res=[]))
  return t


def generated(rng):
  """Central differences of a generated field at interior points, all slices."""
  S = lib()
  f = S.gen.GenerativeWindFieldSampler().sample_field(S.jax.random.PRNGKey(rng.randrange(2**31)), None)
  sh = S.vae.FieldShape()
  t = [dict(ev='begin', kind='generated', shape=rec_shape(sh)),
       dict(ev='field', shape=list(f.shape), grid=list(sh.grid_shape()), finite=bool(S.np.isfinite(f).all()),
            spread=kit.flt(f.std()),
            axes=[[kit.flt(v) for v in a] for a in (sh.latlng_grid_points(), sh.pressure_grid_points(), sh.time_grid_points())])]
  for _ in range(30):
    i, j, k, l = rng.randint(1, 19), rng.randint(1, 19), rng.randrange(10), rng.randrange(9)
    t.append(dict(ev='div', du=[kit.flt(f[i, j + 1, k, l, 0]), kit.flt(f[i, j - 1, k, l, 0])],
                  dv=[kit.flt(f[i + 1, j, k, l, 1]), kit.flt(f[i - 1, j, k, l, 1])]))
  return t
