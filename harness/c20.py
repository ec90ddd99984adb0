"""C20: grid wind fields."""
import kit, winddrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of clamping, boomerang time and multilinear interpolation (spec/WindField.tla); TLC '
             'judges recorded forecasts of grid-based wind fields over random grids, and of the generative fields, '
             'against the stored grid')
NOTE = 'The lookup is single precision in the code; values are compared to 2e-3 m/s.'


def run(c):
  rng, ts = c.rng, []
  def dense(kind, n):
    d = winddrv.Fields(rng, kind)
    for i in (1, 2):
      d.reset(i, rng.choice('ab'))
    for q in range(n):
      p = d.random_point()
      d.query(rng.choice([1, 2]), rng.choice(['forecast', 'column']), 10 + q, p)
      if rng.random() < 0.15:      # the same point again: history must not matter
        d.query(rng.choice([1, 2]), rng.choice(['forecast', 'column']), 10 + q, p)
      if rng.random() < 0.05:
        d.reset(rng.choice([1, 2]), rng.choice('ab'))
    return d
  for _ in range(c.n(40, 600)):
    ts.append(dense('grid', 25).t)
  for kind in ('gen', 'old'):
    for _ in range(c.n(2, 20)):
      ts.append(dense(kind, 60).t)
  # Nodes of the grid are reproduced exactly (up to the tolerance of the lookup).
  for _ in range(c.n(10, 100)):
    d = winddrv.Fields(rng, 'grid')
    d.reset(1, 'a')
    s, f = d.shape, d.reference['a'][1]
    ax = [s.latlng_grid_points(), s.latlng_grid_points(), s.pressure_grid_points(), s.time_grid_points()]
    for q in range(15):
      i = [rng.randrange(len(a)) for a in ax]
      d.query(1, 'forecast', q, (float(ax[0][i[0]]), float(ax[1][i[1]]), [float(ax[2][i[2]])], float(ax[3][i[3]]) * 3600))
      r = d.t[-1].get('res')
      if r:
        d.t.append(dict(ev='pair', a=r, b=[[kit.flt(z) for z in f[tuple(i)]]]))
    ts.append(d.t)
  for _ in range(c.n(4, 40)):
    ts.append(winddrv.generated(rng))
  # The deprecated class and its replacement are the same field.
  a, b = winddrv.Fields(rng, 'gen'), winddrv.Fields(rng, 'old')
  a.w[1].reset(a.keys['a'], a.date)
  t = [dict(ev='begin', kind='pair', shape=[])]
  for k in 'ab':
    a.w[1].reset(a.keys[k], a.date)
    b.w[1].reset(a.keys[k], a.date)
    for _ in range(30):
      x, y, ps, sec = a.random_point()
      D, T = winddrv.lib().units.Distance, winddrv.dt.timedelta(seconds=sec)
      r1 = a.w[1].get_forecast_column(D(km=x), D(km=y), ps, T)
      r2 = b.w[1].get_forecast_column(D(km=x), D(km=y), ps, T)
      t.append(dict(ev='pair', a=[winddrv.pair(v) for v in r1], b=[winddrv.pair(v) for v in r2]))
  ts.append(t)
  c.judge('T_Wind', ts, chunks=8)
