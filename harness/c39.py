"""C39: wind columns and wind speeds."""
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ definition of columns that support station keeping (spec/Winds.tla); TLC checks it on all small columns '
             '(MC_Winds), each of which is put to the real function; its answers, those for random columns and the speeds '
             'of random fields are judged by TLC (T_Winds)')
NOTE = ('Every set of 3 to 4 small integer winds, random columns of up to 181. A calm on the border of the hull is left '
        'open; columns on one line have no hull and may be refused.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  R = {r}
  MaxLevels = {m}
  Emit = {emit}
INVARIANTS Exclusive TurningChangesNothing OppositeOfSupporting NeedsThree Show
PROPERTIES MoreWindsNeverHurt
CHECK_DEADLOCK FALSE
'''


def run(c):
  kit.setup_repo()
  import numpy as np, math
  from balloon_learning_environment.utils import wind
  rng, F = c.rng, kit.flt
  m = c.model('MC_Winds', CFG.format(r=1, m=c.n(3, 4), emit='TRUE'), workers=1)
  cols = [[[float(x) for x in w] for w in col] for col in m.lines('COL')]
  if not c.quick:
    c.model('MC_Winds', CFG.format(r=2, m=3, emit='FALSE'), workers=4, name='MC_Winds larger')
  small = [[float(x), float(y)] for x in range(-2, 3) for y in range(-2, 3)]
  for _ in range(c.n(800, 12000)):
    cols.append(rng.sample(small, rng.choice([3, 4, 5, 6])))
  for _ in range(c.n(250, 4000)):
    n, kind, s = rng.choice([3, 4, 10, 40, 181]), rng.randrange(4), rng.choice([0.01, 1.0, 8.0, 60.0])
    if kind == 0:
      col = [[rng.gauss(0, s), rng.gauss(0, s)] for _ in range(n)]
    elif kind == 1:   # a jet: all to one side, or almost
      a, w = rng.uniform(0, 2 * math.pi), rng.choice([1.0, 2.5, 3.0, 3.3, 4.0])
      col = [[r * math.cos(t), r * math.sin(t)] for r, t in ((rng.uniform(0.1, 3) * s, a + rng.uniform(-w, w) / 2) for _ in range(n))]
    elif kind == 2:   # a column that turns with height
      a, w = rng.uniform(0, 2 * math.pi), rng.uniform(0, 7)
      col = [[s * math.cos(a + w * i / n) * (1 + i / n), s * math.sin(a + w * i / n) * (1 + i / n)] for i in range(n)]
    else:
      u, v = rng.gauss(0, 2 * s), rng.gauss(0, 2 * s)
      col = [[u + rng.gauss(0, s), v + rng.gauss(0, s)] for _ in range(n)]
    cols.append(col)
  t = []
  for col in cols:
    a = np.array(col, rng.choice([np.float64, np.float64, np.float32]))
    if a.dtype == np.float32:
      col = [[float(x) for x in w] for w in a]
    yes, exc = kit.call(wind.is_station_keeping_winds, a)
    t.append(dict(op='column', col=[[F(x) for x in w] for w in col], exc=exc, yes=bool(yes) if exc == 'ok' else False))
  for _ in range(c.n(40, 300)):
    shape = tuple(rng.randrange(1, 4) for _ in range(4))
    w = np.random.default_rng(rng.randrange(2**31)).normal(0, rng.choice([0.0, 1.0, 30.0]), shape + (2,)).astype(np.float32)
    s, e1 = kit.call(wind.wind_field_speeds, w)
    mean, e2 = kit.call(wind.mean_speed_in_wind_field, w)
    e = dict(op='field', exc=e1 if e1 != 'ok' else e2, want=list(shape), winds=[[F(float(x)) for x in v] for v in w.reshape(-1, 2)])
    if e['exc'] == 'ok':
      e.update(dims=list(np.shape(s)), speeds=[F(float(v)) for v in np.asarray(s).reshape(-1)], mean=F(float(mean)))
    t.append(e)
  rng.shuffle(t)
  c.judge('T_Winds', [[dict(op='begin')] + t[i:i + 100] for i in range(0, len(t), 100)], chunks=8)
  n = [sum(e['op'] == 'column' and e['yes'] == y for e in t) for y in (True, False)]
  c.cov['executions'] = dict(columns_supporting=n[0], columns_not=n[1], refused=sum(e['op'] == 'column' and e['exc'] != 'ok' for e in t))
