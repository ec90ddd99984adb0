"""C08: envelope safety layer."""
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the envelope layer (spec/EnvelopeSafety.tla); TLC checks its invariants over all histories of '
             'superpressure levels and commands (MC_EnvelopeSafety), every transition is replayed into the real layer, and recorded '
             'random walks of the real layer are judged by TLC (T_EnvelopeSafety)')
NOTE = 'The model abstracts superpressure levels to its thresholds; the recorded walks use real-valued states.'

CFG = '''SPECIFICATION Spec
INVARIANTS TypeOK ForcedAscentInCritical NoDescentInTrouble TransparentWhenClear
  OnlyDescentIsBlockedOutsideCritical PausedIffRestricting
CHECK_DEADLOCK FALSE
INVARIANT EmitInit
ACTION_CONSTRAINT EmitEdge
'''


def zones(mx):
  return dict(low_critical=(-300.0, 150.0), low=(150.0, 250.0), low_hyst=(250.0, 300.0),
              nominal=(300.0, mx - 300.0), high_hyst=(mx - 300.0, mx - 250.0),
              high=(mx - 250.0, mx - 150.0), high_critical=(mx - 150.0, mx + 900.0))


def run(c):
  from balloon_learning_environment.env.balloon import control, envelope_safety
  C = control.AltitudeControlCommand
  r = c.model('MC_EnvelopeSafety', CFG, workers=1)
  g = kit.Graph(r)
  rng = c.rng
  traces, players = [], []

  def pick(mx, zone):
    lo, hi = zones(mx)[zone]
    u = rng.random()
    if u < 0.2: return lo          # boundaries belong to the upper zone
    if u < 0.35: return lo + 1e-4
    if u < 0.5: return hi - 1e-4
    return rng.uniform(lo, hi - 1e-6)

  def play(mx, steps):
    layer = envelope_safety.EnvelopeSafetyLayer(mx)
    t = [dict(ev='begin', max=kit.flt(mx), paused=bool(layer.navigation_is_paused))]
    traces.append(t)
    yield
    for sp, cmd in steps:
      if rng.random() < 0.2:
        t.append(dict(ev='peek', paused=bool(layer.navigation_is_paused)))
      eff, exc = kit.call(layer.get_action, C[cmd], sp)
      t.append(dict(ev='get', sp=kit.flt(sp), cmd=cmd, exc=exc,
                    eff=eff.name if isinstance(eff, C) else str(eff),
                    paused=bool(layer.navigation_is_paused)))
      yield

  def episode(*a):
    players.append(play(*a))

  limits = [2380, 2380.0, 1500, 900.0, 3000, 2000.0, 750]
  for rep in range(c.n(4, 40)):
    mx = limits[rep % len(limits)]
    for _, path in g.tour(rng, max_len=80):
      episode(mx, [(pick(mx, a['zone']), a['cmd']) for a, _ in path])
  c.cov['model_edges_replayed'] = g.n_edges
  for k in range(c.n(30, 400)):
    mx = rng.choice(limits)
    sp, steps, jump = rng.uniform(0, mx), [], rng.random() * 0.3
    for _ in range(rng.choice([20, 80, 200])):
      if rng.random() < jump:
        sp = pick(mx, rng.choice(sorted(zones(mx))))
      else:
        sp += rng.gauss(0, 60)
      steps.append((sp, rng.choice(['DOWN', 'STAY', 'UP'])))
    episode(mx, steps)
  kit.side_by_side(rng, players)
  c.judge('T_EnvelopeSafety', traces)
