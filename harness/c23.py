"""C23: physical units."""
import datetime as dt, operator
import kit
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ dimensional algebra (spec/Units.tla): every operator on every ordered pair of operand kinds, with many '
             'values, is executed on the real classes and the recorded results are judged by TLC')
NOTE = 'The table of operators and operand kinds is exhaustive; the values are sampled and include boundaries.'
OPS = dict(add=operator.add, sub=operator.sub, mul=operator.mul, div=operator.truediv, eq=operator.eq, ne=operator.ne,
           lt=operator.lt, le=operator.le, gt=operator.gt, ge=operator.ge)


def run(c):
  kit.setup_repo()
  from balloon_learning_environment.utils import units as u
  rng, f = c.rng, kit.flt
  make = dict(D=lambda x: u.Distance(m=x), V=lambda x: u.Velocity(mps=x), E=lambda x: u.Energy(watt_hours=x),
              P=lambda x: u.Power(watts=x), T=lambda x: dt.timedelta(seconds=x), N=lambda x: x, X=lambda x: rng.choice(['3', None, [], object()]))

  def kind(v):
    if isinstance(v, bool): return 'B', None
    for k, t, g in (('D', u.Distance, 'm'), ('V', u.Velocity, 'mps'), ('E', u.Energy, 'watt_hours'), ('P', u.Power, 'watts')):
      if isinstance(v, t): return k, f(getattr(v, g))
    if isinstance(v, dt.timedelta): return 'T', f(v.total_seconds())
    if isinstance(v, (int, float)): return 'N', f(v)
    import numpy as np
    if isinstance(v, np.bool_): return 'B', None
    if isinstance(v, np.number): return 'N', f(v)
    return 'X', f('nan')

  def number():
    return rng.choice([rng.uniform(-1e4, 1e4), rng.uniform(-2, 2), float(rng.randint(-5, 5)), 0.0, 1.0, 1e-7, 1e12, -3e8])

  ts, t = [], [dict(ev='begin')]
  for _ in range(c.n(7, 120)):
    for op, fn in OPS.items():
      for l in 'DVEPTNX':
        for r in 'DVEPTNX':
          if not ({l, r} & set('DVEP')):
            continue
          x, y = number(), number()
          if rng.random() < 0.35 and op in ('eq', 'ne', 'lt', 'le', 'gt', 'ge'):
            y = x + rng.choice([0, 0, 5e-10, -5e-10, 2e-9, -2e-9]) if abs(x) < 1e4 else x
          if 'T' == l: x = float(int(x * 1000) / 1000) if abs(x) < 1e6 else 90.5
          if 'T' == r: y = float(int(y * 1000) / 1000) if abs(y) < 1e6 else 7200.25
          if l == 'N' and rng.random() < 0.4: x = int(x)
          if r == 'N' and rng.random() < 0.4: y = int(y)
          a, b = make[l](x), make[r](y)
          if l == 'T': x = a.total_seconds()
          if r == 'T': y = b.total_seconds()
          v, exc = kit.call(fn, a, b)
          e = dict(ev='op', op=op, l=l, r=r, x=f(x), y=f(y), exc=exc)
          if exc == 'ok':
            e['k'], e['v'] = kind(v)
            e['v'] = e['v'] or 'nan'
            e['b'] = bool(v) if e['k'] == 'B' else False
          e['kept'] = (l == 'X' or kind(a)[1] == f(x)) and (r == 'X' or kind(b)[1] == f(y))
          t.append(e)
    ts.append(t)
    t = [dict(ev='begin')]
  last, stamp = None, None
  for _ in range(c.n(250, 2000)):
    z = lambda: rng.choice([0.0, 0.0, number()])
    m, me, km, ki, ft = z(), z(), z(), z(), z()
    d = u.Distance(m=m, meters=me, km=km, kilometers=ki, feet=ft)
    t.append(dict(ev='distance', m=f(m), meters=f(me), km=f(km), kilometers=f(ki), feet=f(ft),
                  out=[f(v) for v in (d.m, d.meters, d.km, d.kilometers, d.feet)]))
    v = u.Velocity(mps=m, meters_per_second=me, kmph=km, kilometers_per_hour=ki)
    text = str(v)
    try:
      ok = text.endswith(' m/s') and float(text[:-4]) == v.mps
    except ValueError:
      ok = False
    t.append(dict(ev='velocity', mps=f(m), meters=f(me), kmph=f(km), kilometers=f(ki), textOk=ok,
                  out=[f(q) for q in (v.mps, v.meters_per_second, v.kmph, v.kilometers_per_hour)]))
    t.append(dict(ev='energy', wh=f(m), out=f(u.Energy(watt_hours=m).watt_hours)))
    t.append(dict(ev='power', w=f(m), out=f(u.Power(watts=m).watts)))
    t.append(dict(ev='degrees', km=f(km), out=f(u.distance_to_degrees(u.Distance(km=km)))))
    t.append(dict(ev='norm', x=f(m), y=f(me), out=f(u.relative_distance(u.Distance(m=m), u.Distance(m=me)).m)))
    s = rng.choice([rng.uniform(-1e6, 1e6), 0.0, 3600.0])
    td = dt.timedelta(seconds=s)
    t.append(dict(ev='hours', s=f(td.total_seconds()), a=f(u.seconds_to_hours(td.total_seconds())), b=f(u.timedelta_to_hours(td))))
    zone = rng.choice(['default', None, dt.timezone.utc, dt.timezone(dt.timedelta(hours=rng.randint(-12, 14)))])
    a = (rng.randint(1990, 2050), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), rng.randint(0, 999999))
    if last and rng.random() < 0.4:   # the same moment, but for one field
      i = rng.randrange(7)
      a = last[:i] + (a[i],) + last[i + 1:]
    last = a
    a = a[:rng.choice([3, 4, 5, 6, 7])]
    k = {} if zone == 'default' else dict(tzinfo=zone)
    v, exc = kit.call(u.datetime, *a, **k)
    ref = dt.datetime(*a, tzinfo=zone if isinstance(zone, dt.timezone) else dt.timezone.utc)
    e = dict(ev='datetime', exc=exc, ts=f(ref.timestamp()), asked=list(a))
    if exc == 'ok':
      e.update(aware=v.tzinfo is not None, out=f(v.timestamp()), fields=[v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond][:len(a)])
    t.append(e)
    _, exc = kit.call(u.datetime, *rng.choice([(2011, 13, 1), (2011, 2, 30), (2011, 1, 1, 24), (2011, 0, 1)]))
    t.append(dict(ev='badtime', exc=exc))
    n = rng.randint(0, 2 * 10**9) if stamp is None or rng.random() < 0.7 else stamp + rng.choice([0, 1, -1, 60, 3600, 86400])
    stamp = n
    v = u.datetime_from_timestamp(n)
    t.append(dict(ev='stamp', ts=f(n), out=f(v.timestamp()), aware=v.tzinfo is not None, utc=v.utcoffset() == dt.timedelta(0)))
  ts.append(t)
  c.cov['operator_table'] = len(OPS) * 45
  c.judge('T_Units', ts, chunks=8)
