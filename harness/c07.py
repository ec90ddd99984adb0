"""C07: altitude safety layer."""
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the altitude layer (spec/AltitudeSafety.tla); TLC checks its invariants over all histories of '
             'levels of height above the floor and commands (MC_AltitudeSafety), every transition is replayed into the real layer, and recorded '
             'random walks of the real layer are judged by TLC (T_AltitudeSafety)')
NOTE = 'The model abstracts levels of height above the floor to its thresholds; the recorded walks use real-valued states.'

CFG = '''SPECIFICATION Spec
INVARIANTS TypeOK ForcedAscentBelowFloor NoDescentWhileLow TransparentWhenClear
  OnlyDescentIsBlockedAboveFloor PausedIffRestricting
CHECK_DEADLOCK FALSE
'''
EMIT = CFG + 'INVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\n'
ZONES = dict(very_low=(20000.0, 50000.0), low=(50000.0, 50500.0),
             hysteresis=(50500.0, 51000.0), nominal=(51000.0, 62000.0))


def feet_in(rng, zone):
  lo, hi = ZONES[zone]
  r = rng.random()
  if r < 0.25:
    return lo + 1e-3 if lo > 20000 else hi - 1e-3
  if r < 0.5:
    return hi - 1e-3 if hi < 62000 else lo + 1e-3
  return rng.uniform(lo + 1e-3, hi - 1e-3)


class StubAtmosphere:
  """Reports the altitude it is told, whatever the pressure."""

  def __init__(self):
    self.feet = 60000.0

  def at_pressure(self, pressure):
    from balloon_learning_environment.env.balloon import standard_atmosphere as sa
    from balloon_learning_environment.utils import units
    import dataclasses
    h = units.Distance(feet=self.feet)
    class R: pass
    r = R()
    r.height, r.pressure, r.temperature = h, pressure, 220.0
    return r


def run(c):
  import jax
  from balloon_learning_environment.env.balloon import altitude_safety as als
  from balloon_learning_environment.env.balloon import control
  from balloon_learning_environment.env.balloon import standard_atmosphere as sa
  from balloon_learning_environment.utils import units
  C = control.AltitudeControlCommand
  r = c.model('MC_AltitudeSafety', EMIT, workers=1)
  g = kit.Graph(r)
  rng = c.rng

  traces, players = [], []

  def play(steps, atm):
    """steps: (feet or None, cmd). Uses the real or the stub atmosphere."""
    layer = als.AltitudeSafetyLayer()
    t = [dict(ev='begin', paused=bool(layer.navigation_is_paused))]
    traces.append(t)
    yield
    for feet, cmd in steps:
      if atm is None:
        a = StubAtmosphere()
        a.feet = feet
        pressure = 7000.0
        height = feet
      else:
        a = atm
        # Any supported height; the altitude judged is the atmosphere's own.
        pressure = a.at_height(units.Distance(feet=feet)).pressure
        height = a.at_pressure(pressure).height.feet
        if min(abs(height - z) for z in (50000, 50500, 51000)) < 1e-5:
          continue  # rounding decides here
      if rng.random() < 0.2:
        t.append(dict(ev='peek', paused=bool(layer.navigation_is_paused)))
      eff, exc = kit.call(layer.get_action, C[cmd], a, pressure)
      t.append(dict(ev='get', feet=kit.flt(height), cmd=cmd, exc=exc,
                    eff=eff.name if isinstance(eff, C) else str(eff),
                    paused=bool(layer.navigation_is_paused)))
      yield

  def episode(*a):
    players.append(play(*a))

  # 1. All transitions of the model, replayed on the real layer.
  reps = c.n(3, 20)
  for _ in range(reps):
    for _, path in g.tour(rng, max_len=60):
      episode([(feet_in(rng, a['zone']), a['cmd']) for a, _ in path], None)
  c.cov['model_edges_replayed'] = g.n_edges
  # 2. Long random walks and jumps.
  for _ in range(c.n(30, 400)):
    zone_p = rng.random()
    steps, f = [], rng.uniform(45000, 60000)
    for _ in range(rng.choice([20, 80, 200])):
      if rng.random() < zone_p * 0.3:
        f = feet_in(rng, rng.choice(sorted(ZONES)))
      else:
        f += rng.gauss(0, 150)
      if min(abs(f - z) for z in (50000, 50500, 51000)) < 1e-5: f += 1e-3
      f = min(max(f, 20000), 70000)
      steps.append((f, rng.choice(['DOWN', 'STAY', 'UP'])))
    episode(steps, None)
  # 3. The documented floor itself is not below the floor.
  for pre in (60000.0, 50700.0, 50200.0, 49000.0):
    episode([(pre, 'DOWN'), (50000.0, 'DOWN'), (50000.0, 'STAY'), (50700.0, 'DOWN'),
             (60000.0, 'DOWN')], None)
  # 4. Real atmospheres.
  for k in range(c.n(4, 40)):
    atm = sa.Atmosphere(jax.random.PRNGKey(rng.randrange(2**31)))
    episode([(rng.choice([rng.uniform(46000, 56000), rng.uniform(49800, 51200)]),
              rng.choice(['DOWN', 'STAY', 'UP'])) for _ in range(60)], atm)
  kit.side_by_side(rng, players)
  c.judge('T_AltitudeSafety', traces)
  c.assumptions = ['altitudes closer than 1e-5 ft to a zone boundary are not judged']
