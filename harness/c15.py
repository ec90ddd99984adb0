"""C15: wind-column features."""
import copy
import kit, simdrv, featdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the wind column and of the accessible pressure range (spec/Observation.tla, '
             'spec/PressureRange.tla); TLC judges recorded feature vectors')
NOTE = ('The estimate at each level comes from a second wind model fed with the same measurements (the wind model itself '
        'is judged under C17); centring, masking, encoding and the pressure range come from the specification.')


def run(c):
  rng, ts = c.rng, []
  S = featdrv.lib()
  def one():
    b, atm = featdrv.random_state(rng)
    fc, gp, f, exc = featdrv.features_of(rng, b, atm)
    return [dict(ev='begin'), featdrv.column_event(b, atm, gp, f, exc)]
  for _ in range(c.n(120, 2500)):
    ts.append(one())
  # One constructor, one balloon: the hour, the gas, the air and the warmth change, the place hardly.
  def life():
    b, atm = featdrv.random_state(rng)
    fc, gp = featdrv.constructor(rng, b, atm)
    t = [dict(ev='begin')]
    ts.append(t)
    for k in range(c.n(4, 8)):
      yield
      f, exc = kit.call(fc.get_features)
      t.append(featdrv.column_event(b, atm, gp, f, exc))
      if exc != 'ok':
        break
      b = featdrv.changed(rng, b)
      w = featdrv.wind(rng)
      yield
      fc.observe(S.sd.SimulatorObservation(balloon_observation=b, wind_at_balloon=w))
      gp.observe(b.x, b.y, b.pressure, b.time_elapsed, w)
  kit.side_by_side(rng, [life() for _ in range(c.n(25, 400))])
  # One long episode: the constructor keeps state between steps.
  for i in range(c.n(2, 12)):
    d = featdrv.env_driver(rng) if i % 6 == 0 else d
    obs = d.env.reset(seed=rng.randrange(2**31))
    gp = S.wind_gp.WindGP(d.wf)
    t = [dict(ev='begin')]
    cmd = simdrv.Commands(rng)
    for k in range(c.n(60, 240)):
      b, atm = d.b, d.env.get_simulator_state().atmosphere
      gp.observe(b.x, b.y, b.pressure, b.time_elapsed, d.wf.get_ground_truth(b.x, b.y, b.pressure, b.time_elapsed))
      if k % c.n(6, 4) == 0:
        t.append(featdrv.column_event(b, atm, gp, obs, 'ok'))
      if b.status.name != 'OK': break
      obs = d.env.step(int(S.C[cmd()]))[0]
    ts.append(t)
  c.judge('T_Features', ts, env=dict(FOCUS='C15'), chunks=8)
