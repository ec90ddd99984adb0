"""C22: sun position, sunrise and sunset, solar power."""
import datetime as dt, math
import kit, simdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the solar ephemeris and panel model (spec/Solar.tla); TLC judges recorded evaluations '
             'of the real functions, including sunrise/sunset searches')
NOTE = 'Sunrise and sunset are checked to the resolution of the search, through the specification\'s own elevation.'


def run(c):
  S, rng, f = simdrv.sim(), c.rng, kit.flt
  so, ll = S.solar, S.s2.LatLng
  ts = []

  def when():
    zone = dt.timezone(dt.timedelta(minutes=rng.choice([0, 0, 0, 330, -480, 840, -720])))
    return dt.datetime.fromtimestamp(rng.uniform(1262304000, 1609459200) // 1, zone)

  def sun(p, t, valid=True):
    r, exc = kit.call(so.solar_calculator, p, t)
    e = dict(ev='sun', lat=f(p.lat().radians), lng=f(p.lng().radians), aware=t.tzinfo is not None, valid=valid, exc=exc,
             ts=f(t.timestamp()))
    if exc == 'ok':
      e.update(el=f(r[0]), az=f(r[1]), flux=f(r[2]))
    return e

  t = [dict(ev='begin')]
  last = (0.0, 0.0, when())
  for _ in range(c.n(500, 20000)):
    at = (rng.choice([rng.uniform(-90, 90), rng.uniform(-12, 12), 0.0]), rng.uniform(-180, 180), when())
    if rng.random() < 0.4:   # what was asked before, but for one thing
      k = rng.randrange(3)
      at = last[:k] + (at[k],) + last[k + 1:]
    last = at
    t.append(sun(ll.from_degrees(*at[:2]), at[2]))
    if len(t) > 250:
      ts.append(t)
      t = [dict(ev='begin')]
  # The sun exactly overhead: the latitude of its declination, at its noon.
  for _ in range(c.n(40, 1000)):
    w = when()
    lat, lng = 0.0, 0.0
    for _ in range(4):
      x = overhead(ll.from_degrees(lat, lng), w, so)
      lat, lng = x
    for k in range(6):
      t.append(sun(ll.from_degrees(lat, lng), w))
      lat += rng.uniform(-2e-7, 2e-7)
      lng += rng.uniform(-2e-7, 2e-7)
  ts.append(t)
  # Around noon and midnight.
  t = [dict(ev='begin')]
  for _ in range(c.n(80, 1500)):
    p, w = ll.from_degrees(rng.uniform(-59.9, 59.9) if rng.random() < 0.3 else rng.uniform(-12, 12), rng.uniform(-180, 180)), when()
    turn = rng.choice([so.get_next_solar_noon, so.get_next_solar_midnight])(p, w)[0]
    for _ in range(6):
      w = turn + dt.timedelta(seconds=rng.randrange(-400, 401))
      g, exc = kit.call(so.is_solar_afternoon, p, w)
      t.append(dict(ev='afternoon', lat=f(p.lat().radians), lng=f(p.lng().radians), ts=f(w.timestamp()), exc=exc, val=bool(g)))
  for lat, lng in [(90.5, 0), (-91, 10), (0, 181), (0, -180.5), (200, 400), (45, 1000)]:
    t.append(sun(ll.from_degrees(lat, lng), when(), valid=False))
  for _ in range(5):
    t.append(sun(ll.from_degrees(1, 2), when().replace(tzinfo=None)))
  ts.append(t)
  t = [dict(ev='begin')]
  edge_el = [-90.0, 90.0, 90.001, -90.001, -4.242, -4.2421, -4.24, 0.0, 1e9, -1e9, math.nan]
  edge_p = [0.0, 101325.0, 101326.0, -1.0, 1e9, 5000.0]
  for _ in range(c.n(300, 6000)):
    el = rng.choice([rng.uniform(-90, 90), rng.uniform(-6, 5), rng.uniform(20, 60)] + edge_el[:9] * (rng.random() < 0.3))
    p = rng.choice([rng.uniform(0, 101325), rng.uniform(4000, 15000)] + edge_p * (rng.random() < 0.3))
    v, exc = kit.call(so.solar_atmospheric_attenuation, el, p)
    t.append(dict(ev='attenuation', el=f(el), p=f(p), exc=exc, val=f(v) if exc == 'ok' else 0))
    v, exc = kit.call(so.solar_power, el, p)
    t.append(dict(ev='power', el=f(el), p=f(p), exc=exc, val=f(v.watts) if exc == 'ok' else 0))
    h, el = rng.choice([3.3, 2.7, rng.uniform(0, 10)]), rng.uniform(-90, 90)
    v, exc = kit.call(so.balloon_shadow, el, h)
    t.append(dict(ev='shadow', el=f(el), h=f(h), exc=exc, val=f(v) if exc == 'ok' else 0))
    el = rng.uniform(-4, 90)
    t.append(dict(ev='monotone', vals=[f(so.solar_power(el, p).watts) for p in sorted((rng.uniform(0, 101325) for _ in range(6)), reverse=True)]))
  ts.append(t)
  t, asked = [dict(ev='begin')], None
  for _ in range(c.n(220, 5000)):
    m = rng.choice([12, 12, 30, 59.9])
    p, w = ll.from_degrees(rng.uniform(-m, m), rng.uniform(-180, 180)), when()
    if rng.random() < 0.3:   # shortly before or after noon, midnight, sunrise or sunset
      turn = rng.choice([so.get_next_solar_noon(p, w)[0], so.get_next_solar_midnight(p, w)[0], *so.get_next_sunrise_sunset(p, w)])
      w = turn + dt.timedelta(seconds=rng.randrange(-300, 301))
    step = dt.timedelta(minutes=rng.choice([3, 3, 3, 1, 5]))
    if asked and rng.random() < 0.3:
      p, w, step = rng.choice([(asked[0], asked[1], step), (asked[0], w, asked[2]), (p, asked[1], asked[2])])
    asked = (p, w, step)
    e = dict(ev='next', lat=f(p.lat().radians), lng=f(p.lng().radians), ts=f(w.timestamp()), dt=f(step.total_seconds()))
    a, x1 = kit.call(so.get_next_solar_noon, p, w, step)
    b, x2 = kit.call(so.get_next_solar_midnight, p, w, step)
    r, x3 = kit.call(so.get_next_sunrise_sunset, p, w, step)
    n, x4 = kit.call(so.calculate_steps_to_sunrise, p, w, step)
    g, x5 = kit.call(so.is_solar_afternoon, p, w)
    e['exc'] = next((x for x in (x1, x2, x3, x4, x5) if x != 'ok'), 'ok')
    if e['exc'] == 'ok':
      e.update(noon=f(a[0].timestamp()), noonEl=f(a[1]), midnight=f(b[0].timestamp()), midEl=f(b[1]),
               rise=f(r[0].timestamp()), set=f(r[1].timestamp()), steps=int(n), afternoon=bool(g))
    t.append(e)
    if len(t) > 40:
      ts.append(t)
      t = [dict(ev='begin')]
  for lat in (60.01, -60.01, 75, -89.9):
    _, exc = kit.call(so.get_next_sunrise_sunset, ll.from_degrees(lat, 3), when())
    t.append(dict(ev='polar', exc=exc))
  ts.append(t)
  c.judge('T_Solar', ts, chunks=8)


def overhead(p, w, so):
  """Moves a position towards the point below the sun."""
  el, az, _ = so.solar_calculator(p, w)
  if not (math.isfinite(el) and math.isfinite(az)):
    return p.lat().degrees, p.lng().degrees
  z, a = math.radians(90 - min(el, 90)), math.radians(az)
  lat = p.lat().radians
  lat2 = math.asin(max(-1, min(1, math.sin(lat) * math.cos(z) + math.cos(lat) * math.sin(z) * math.cos(a))))
  lng2 = p.lng().radians + math.atan2(math.sin(a) * math.sin(z) * math.cos(lat), math.cos(z) - math.sin(lat) * math.sin(lat2))
  return math.degrees(lat2), (math.degrees(lng2) + 180) % 360 - 180
