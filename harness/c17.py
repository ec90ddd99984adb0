"""C17: the wind model."""
import datetime as dt
import kit, simdrv, featdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of Gaussian-process regression over the observation history (spec/WindGP.tla); TLC '
             'judges recorded observe, query and reset histories of the real wind model')
NOTE = 'The linear system is solved inside the specification (elimination in the Java override), not by scikit-learn.'


def history(rng, ts, n_ops, gap_p, max_obs=45, flight=(), beat=0):
  """flight: a long flight, one observation per step, with queries after these steps.  beat: seconds between observations."""
  import numpy as np
  S = featdrv.lib()
  u, f = S.units, kit.flt
  field = featdrv.Forecast(rng)
  gp = S.wind_gp.WindGP(field)
  t = [dict(ev='begin')]
  ts.append(t)
  x, y, p, sec = rng.gauss(0, 1e5), rng.gauss(0, 1e5), rng.uniform(5500, 12000), 180.0 * rng.randrange(100)
  n, asked, where, plan, given = 0, [], [], [], []
  fc = lambda X, Y, P, T: field.get_forecast(u.Distance(m=X), u.Distance(m=Y), P, dt.timedelta(seconds=T))
  turns = iter(range(n_ops)) if not flight else iter(
      x for k in range(max(flight)) for x in [0.1] + ([0.7] if k + 1 in flight else []) + [0.99])
  for turn in turns:
    yield
    r = turn if flight else rng.random()
    plan_ask = False
    if plan:
      do, q = plan.pop(0)
      plan_ask = do == 'ask'
      r = 0.1 if do == 'at' else 0.7
      if do == 'at':
        x, y, p, sec = q
    if r < 0.5 and n < max_obs:
      m = featdrv.wind(rng)
      _, exc = kit.call(gp.observe, u.Distance(m=x), u.Distance(m=y), p, dt.timedelta(seconds=sec), m)
      w = fc(x, y, p, sec)
      t.append(dict(ev='observe', exc=exc, x=f(x), y=f(y), p=f(p), t=f(sec), u=f(m.u.meters_per_second),
                    v=f(m.v.meters_per_second), fu=f(w.u.meters_per_second), fv=f(w.v.meters_per_second)))
      n += 1
      where.append((x, y, p, sec))
    elif r < 0.85:
      # Query now, in the past or later; at and around the six-hour horizon.
      qt = sec + rng.choice([0, 0, 0, -180, -3600, 21599.0, 21600.0, 21601.0, -21600.0, 43200, rng.uniform(-3e4, 3e4)])
      qt = sec if flight else max(0.0, qt)
      qx, qy = x + rng.choice([0, rng.gauss(0, 2e4)]), y + rng.choice([0, rng.gauss(0, 2e4)])
      again = q if plan_ask else rng.choice(asked) if asked and rng.random() < 0.25 and not flight else None
      if again:   # the same points, after other observations
        qx, qy, ps, qt, _ = again
      if len(again[2]) == 1 if again else rng.random() < 0.3:
        ps = ps if again else [rng.choice([p, rng.uniform(5000, 14000)])]
        a, exc = kit.call(gp.query, u.Distance(m=qx), u.Distance(m=qy), ps[0], dt.timedelta(seconds=qt))
        res = [(a[0][0], a[0][1], a[1])] if exc == 'ok' else []
      else:
        ps = ps if again else [rng.uniform(5000, 14000) for _ in range(rng.choice([1, 2, 5]) if n > 6 or rng.random() < 0.9 else rng.randrange(182, 260))]
        if not again and rng.random() < 0.7:
          ps.sort()
        q = np.array([[qx, qy, pp, qt] for pp in ps])
        a, exc = kit.call(gp.query_batch, q)
        res = [(m[0], m[1], d) for m, d in zip(a[0], a[1])] if exc == 'ok' else []
      if exc == 'ok':
        if rng.random() < 0.2 and given:
          was, copied = rng.choice(given[-5:])
          t.append(dict(ev='kept', same=all(np.array_equal(i, j) for i, j in zip(was, copied))))
        given.append((a, [np.array(i) for i in a]))
      qs = []
      for pp in ps:
        w = fc(qx, qy, pp, qt)
        qs.append(dict(x=f(qx), y=f(qy), p=f(pp), t=f(qt), fu=f(w.u.meters_per_second), fv=f(w.v.meters_per_second)))
      t.append(dict(ev='query', exc=exc, qs=qs, res=[dict(u=f(i), v=f(j), dev=f(k)) for i, j, k in res]))
      asked.append((qx, qy, ps, qt, n))
    elif r < 0.88:
      field = featdrv.Forecast(rng)
      gp.reset(field)
      t.append(dict(ev='reset'))
      n, seen, where[:] = 0, list(where), []
      old = [q for q in asked if 0 < q[4] <= min(8, len(seen))]
      asked[:] = []
      if old:   # the next flight passes where the last one did, and asks what that asked
        q = rng.choice(old)
        plan[:] = [('at', at) for at in seen[:q[4]]] + [('ask', q)]
    else:
      x, y, p = x + rng.gauss(0, 3e3), y + rng.gauss(0, 3e3), min(14000, max(5000, p + rng.gauss(0, 80)))
      sec += beat or rng.choice([180.0, 180.0, 180.0, 3600.0 if rng.random() < gap_p else 180.0, 22000.0 if rng.random() < gap_p else 180.0])


def run(c):
  ts = []
  kit.side_by_side(c.rng, [history(c.rng, ts, c.rng.choice([6, 25, 60]), c.rng.choice([0.0, 0.2, 0.7]))
                           for _ in range(c.n(70, 900))])
  # As long as real flights: the six hours hold up to 120 observations, and more leave them.
  flights = [(c.rng.randrange(105, 125), c.rng.randrange(150, 260)) for _ in range(c.n(1, 6))]
  kit.side_by_side(c.rng, [history(c.rng, ts, 0, 0.0, max_obs=10**6, flight=q) for q in flights])
  # Measured so often that the six hours hold several times that.
  for _ in range(c.n(1, 3)):
    k = c.rng.randrange(490, c.n(560, 700))
    kit.side_by_side(c.rng, [history(c.rng, ts, 0, 0.0, max_obs=10**6, flight=(c.rng.randrange(200, k - 1), k - 1), beat=30.0)])
  c.judge('T_WindGP', ts, chunks=8)
