"""C21: the atmosphere."""
import kit, simdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the layered atmosphere (spec/Atmosphere.tla); TLC judges recorded lookups of sampled '
             'atmospheres, including every layer boundary and the limits, against it')
NOTE = 'The sampled lapse rates are inferred from one temperature; everything else follows from the specification.'

EDGES = [-610.0, 17000.0, 21000.0, 32000.0, 47000.0, 51000.0, 71000.0, 85000.0]


def run(c):
  import math
  S, rng, f = simdrv.sim(), c.rng, kit.flt
  jax, u = S.jax, S.units
  from balloon_learning_environment.env.balloon import standard_atmosphere as sa
  D = lambda h: u.Distance(m=h)
  ts = []
  def life(n):
    key = jax.random.PRNGKey(rng.randrange(2**31))
    a = sa.Atmosphere(jax.random.PRNGKey(rng.randrange(2**31)) if n % 2 else key)
    t, first = [], []
    def begin():
      t.append(dict(ev='begin', t10=f(a.at_height(D(10000.0)).temperature)))
    asked = [rng.choice([rng.uniform(0, 3e4), rng.choice(EDGES[:-1]), 10000.0]) for _ in range(rng.randrange(1, 4))]
    where = [rng.choice([rng.uniform(3000, 16000), 108870.8213]) for _ in range(rng.randrange(3))]
    if n % 2:   # what was asked of the atmosphere before is asked again of the next
      for x in rng.sample([(a.at_height, D(h)) for h in asked] + [(a.at_pressure, p) for p in where], len(asked) + len(where)):
        kit.call(*x)
        first.append(x)
      a.reset(key)
      if rng.random() < 0.5:
        first.reverse()
    again = [kit.call(*x) for x in first]
    begin()
    for (g, x), (v, exc) in zip(first, again):
      high = g == a.at_height
      e = dict(ev='height' if high else 'pressure', h=f(x.meters) if high else 0, p=0 if high else f(x), exc=exc)
      if exc == 'ok':
        e.update(t=f(v.temperature), p=f(v.pressure) if high else f(x), rho=f(v.density), hh=f(v.height.meters),
                 h=f(x.meters) if high else f(v.height.meters), pp=f(v.pressure))
      t.append(e)
    top = a.at_height(D(84999.999999)).pressure

    def height(h):
      v, exc = kit.call(a.at_height, D(h))
      e = dict(ev='height', h=f(h), exc=exc)
      if exc == 'ok':
        e.update(t=f(v.temperature), p=f(v.pressure), rho=f(v.density), hh=f(v.height.meters))
        w, x2 = kit.call(a.at_pressure, v.pressure)
        if x2 == 'ok':
          e.update(h2=f(w.height.meters), t2=f(w.temperature))
        elif -609 < h < 84999:
          e.update(h2='nan')
      t.append(e)

    def press(p):
      v, exc = kit.call(a.at_pressure, p)
      e = dict(ev='pressure', p=f(p), exc=exc)
      if exc == 'ok':
        e.update(t=f(v.temperature), h=f(v.height.meters), rho=f(v.density), pp=f(v.pressure))
        w, x2 = kit.call(a.at_height, v.height)
        if x2 == 'ok':
          e.update(p2=f(w.pressure))
        elif -609 < v.height.meters < 84999:
          e.update(p2='nan')
      t.append(e)

    yield
    for h in EDGES + [rng.uniform(-610, 85000) for _ in range(8)] + [rng.uniform(14000, 22000) for _ in range(4)]:
      height(h)
      if rng.random() < 0.1: yield
    for h in [rng.choice(EDGES) + rng.choice([-1, 1]) * rng.choice([1e-6, 0.5]) for _ in range(4)] + [-611.0, 85001.0, 1e9, -1e9, float('nan')]:
      height(h)
      if rng.random() < 0.1: yield
    for p in [108870.8213, 108871.0, 2e5, 0.0, -5.0, top / 2, math.nan] + [rng.uniform(3000, 16000) for _ in range(8)] + \
        [math.exp(rng.uniform(math.log(top * 1.01), math.log(108000))) for _ in range(6)]:
      press(p)
    yield
    hs = sorted(rng.uniform(-610, 84999) for _ in range(20)) + []
    hs = sorted(hs + [e + d for e in EDGES[1:-1] for d in (-0.01, 0.01)])
    vs = [a.at_height(D(h)) for h in hs]
    t.append(dict(ev='ladder', hs=[f(h) for h in hs], ps=[f(v.pressure) for v in vs], ts=[f(v.temperature) for v in vs],
                  rhos=[f(v.density) for v in vs]))
    probe = lambda b: [f(b.at_height(D(h)).pressure) for h in (0.0, 12000.0, 18000.0)] + [f(b.at_pressure(p).temperature) for p in (5000.0, 9000.0, 30000.0)]
    t.append(dict(ev='same', a=probe(a), b=probe(sa.Atmosphere(key))))
    t.append(dict(ev='other', a=probe(a), b=probe(sa.Atmosphere(jax.random.PRNGKey(rng.randrange(2**31))))))
    t.append(dict(ev='same', a=probe(a), b=probe(a)))
    ts.append(t)
  kit.side_by_side(rng, [life(n) for n in range(c.n(70, 1500))])
  c.judge('T_Atmosphere', ts, chunks=8)
