"""C24: transforms and spherical geometry."""
import copy, math, pickle
import kit
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the encodings and of displacement on the sphere (spec/Transforms.tla, '
             'spec/SphereGeom.tla); TLC judges recorded evaluations of the real functions, valid and invalid')


def run(c):
  kit.setup_repo()
  import numpy as np, s2sphere as s2
  from balloon_learning_environment.utils import transforms as tr, spherical_geometry as sg, units as u
  rng, f = c.rng, kit.flt
  num = lambda: rng.choice([rng.uniform(-10, 10), rng.uniform(-1e5, 1e5), float(rng.randint(-3, 3)), 0.0])
  t = [dict(ev='begin')]
  listed = lambda v: [f(x) for x in (v if isinstance(v, np.ndarray) else [v])]
  for _ in range(c.n(500, 20000)):
    lo = num()
    hi = rng.choice([lo + abs(num()) + 1e-3] * 6 + [lo, lo - abs(num()) - 1e-6])
    pick = lambda: rng.choice([rng.uniform(min(lo, hi), max(lo, hi)), lo, hi, num(), lo - 1e6, hi + 1e6])
    xs = np.array([pick() for _ in range(5)]) if rng.random() < 0.3 else pick()
    y, exc = kit.call(tr.linear_rescale_with_extrapolation, xs, lo, hi)
    t.append(dict(ev='rescale', lo=f(lo), hi=f(hi), xs=listed(xs), exc=exc, ys=listed(y) if exc == 'ok' else []))
    z = rng.choice([rng.random(), 0.0, 1.0, rng.uniform(-3, 3)])
    y, exc = kit.call(tr.undo_linear_rescale_with_extrapolation, z, lo, hi)
    e = dict(ev='unrescale', lo=f(lo), hi=f(hi), x=f(z), exc=exc, y=f(y) if exc == 'ok' else 0)
    if exc == 'ok':
      b, bx = kit.call(tr.linear_rescale_with_extrapolation, y, lo, hi)
      e['back'] = f(b) if bx == 'ok' else 'nan'
    t.append(e)
    x = pick()
    y, exc = kit.call(tr.linear_rescale_with_saturation, x, lo, hi)
    t.append(dict(ev='saturate', lo=f(lo), hi=f(hi), x=f(x), exc=exc, y=f(y) if exc == 'ok' else 0))
    k = rng.choice([abs(num()) + 1e-3] * 5 + [0.0, -abs(num())])
    pos = lambda: rng.choice([abs(num())] * 4 + [0.0, 1e9, -1e-9, -abs(num()) - 1e-9] + [k if k > 0 else 1.0])
    xs = np.array([abs(pos()) if rng.random() < 0.9 else pos() for _ in range(4)]) if rng.random() < 0.4 else pos()
    y, exc = kit.call(tr.squash_to_unit_interval, xs, k)
    t.append(dict(ev='squash', k=f(k), xs=listed(xs), exc=exc, ys=listed(y) if exc == 'ok' else []))
    y = rng.choice([rng.random(), rng.random(), 0.0, 1.0, 1 - 1e-9, -1e-9, 1 + 1e-9, num(), math.nan, math.inf])
    x, exc = kit.call(tr.undo_squash_to_unit_interval, np.float64(y) if rng.random() < 0.3 else y, k)
    e = dict(ev='unsquash', k=f(k), y=f(y), exc=exc, x=f(x) if exc == 'ok' else 0)
    if exc == 'ok':
      b, bx = kit.call(tr.squash_to_unit_interval, x, k)
      e['back'] = f(b) if bx == 'ok' else 'nan'
    t.append(e)
    if hi > lo and k > 0:
      xs = sorted(pick() for _ in range(5))
      t.append(dict(ev='mono', ys=[f(tr.linear_rescale_with_saturation(x, lo, hi)) for x in xs]))
      t.append(dict(ev='mono', ys=[f(tr.squash_to_unit_interval(abs(x), k)) for x in sorted(xs, key=abs)]))
      t.append(dict(ev='mono', ys=[f(tr.undo_squash_to_unit_interval(x, k)) for x in sorted(rng.random() for _ in range(5))]))
  ts = [[t[0]] + t[i:i + 400] for i in range(1, len(t), 400)]
  t = [dict(ev='begin')]
  for _ in range(c.n(700, 20000)):
    p = s2.LatLng.from_degrees(rng.choice([rng.uniform(-89, 89), rng.uniform(-12, 12), 0.0, rng.choice([-90.0, 90.0]) * (rng.random() < 0.2)]),
                               rng.choice([rng.uniform(-180, 180), 179.9, -179.9, 0.0]))
    scale = rng.choice([1, 50, 300, 300, 3000, 15000])
    x, y = rng.choice([rng.gauss(0, scale), 0.0]), rng.choice([rng.gauss(0, scale), 0.0])
    if rng.random() < 0.1:   # ending at (or very near) a pole
      x, y = 0.0, rng.choice([1, -1]) * 6371 * math.pi / 2 - p.lat().radians * 6371
    r, exc = kit.call(sg.calculate_latlng_from_offset, p, u.Distance(km=x), u.Distance(km=y))
    e = dict(ev='offset', lat=f(p.lat().radians), lng=f(p.lng().radians), x=f(x), y=f(y), exc=exc)
    if exc == 'ok':
      e.update(rlat=f(r.lat().radians), rlng=f(r.lng().radians))
    t.append(e)
    if rng.random() < 0.2:
      q = [pickle.loads(pickle.dumps(p)), copy.copy(p), copy.deepcopy(p), copy.deepcopy([p])[0]]
      t.append(dict(ev='copy', lat=f(p.lat().radians), lng=f(p.lng().radians), got=[[f(z.lat().radians), f(z.lng().radians)] for z in q]))
  ts += [[t[0]] + t[i:i + 300] for i in range(1, len(t), 300)]
  c.judge('T_Geom', ts, chunks=8)
