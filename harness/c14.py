"""C14: ambient observation features."""
import copy
import kit, simdrv, featdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the observation (spec/Observation.tla); TLC judges observations recorded from the '
             'real feature constructor, standalone and inside environment episodes')
NOTE = ('Random states cover day, night, every command, every pause cause, charge and pressure-ratio cell of the power '
        'table. Sunrise and sunset times are taken from the implementation here and judged under C22.')


def run(c):
  import numpy as np
  S = featdrv.lib()
  rng, ts = c.rng, []
  for _ in range(c.n(160, 3000)):
    b, atm = featdrv.random_state(rng)
    fc, gp, f, exc = featdrv.features_of(rng, b, atm)
    ts.append([dict(ev='begin'), featdrv.ambient_event(b, atm, fc, f, exc)])
  def life():
    b, atm = featdrv.random_state(rng)
    fc, gp = featdrv.constructor(rng, b, atm, 0)
    t = [dict(ev='begin')]
    ts.append(t)
    kept = []
    for _ in range(c.n(6, 12)):
      yield
      f, exc = kit.call(fc.get_features)
      kept.append((f, copy.copy(f)))
      p = rng.choice([5000.0, 14000.0, 4999.5, 14000.5, 0.0, rng.uniform(4000, 16000), 5000, 14000])
      yes, how = kit.call(fc.is_valid_pressure, p)
      t.append(dict(ev='represents', p=kit.flt(p), exc=how, yes=bool(yes)))
      t.append(featdrv.ambient_event(b, atm, fc, f, exc))
      if exc != 'ok':
        break
      b = featdrv.changed(rng, b, ('hour', 'infrared', 'pressure', 'far'))   # always with a safe range of pressures
      if rng.random() < 0.5:
        b.last_command = S.C[rng.choice(['UP', 'STAY', 'DOWN'])]
        b.battery_charge = b.battery_capacity * rng.random()
      yield
      fc.observe(S.sd.SimulatorObservation(balloon_observation=b, wind_at_balloon=featdrv.wind(rng)))
    t.append(dict(ev='kept', same=all(np.array_equal(x, y) for x, y in kept)))
  kit.side_by_side(rng, [life() for _ in range(c.n(12, 300))])
  for i in range(c.n(4, 30)):
    d = featdrv.env_driver(rng) if i % 8 == 0 else d
    t = [dict(ev='begin')]
    kept = [(o, copy.copy(o)) for o in (d.env.reset(seed=rng.randrange(2**31)) for _ in range(rng.choice([0, 1, 1])))]
    obs = d.env.reset(seed=rng.randrange(2**31))
    cmd = simdrv.Commands(rng)
    for _ in range(c.n(40, 200)):
      b, atm = d.b, d.env.get_simulator_state().atmosphere
      kept.append((obs, copy.copy(obs)))
      t.append(featdrv.ambient_event(b, atm, d.env.arena.feature_constructor, obs, 'ok'))
      if b.status.name != 'OK': break
      obs = d.env.step(int(S.C[cmd()]))[0]
    t.append(dict(ev='kept', same=all(np.array_equal(x, y) for x, y in kept)))
    ts.append(t)
  # The whole power table, at and between its boundaries.
  t = [dict(ev='begin')]
  ratios = ['0.99', '1.0', '1.05', '1.08', '1.0799999', '1.09', '1.11', '1.12', '1.14', '1.15', '1.17', '1.18',
            '1.2', '1.21', '1.23', '1.24', '1.26', '1.2600001', '1.5', '3.0', '5.0']
  socs = ['0.0', '0.1', '0.3', '0.2999999', '0.35', '0.4', '0.45', '0.5', '0.55', '0.6', '0.65', '0.7', '0.8', '1.0']
  for r in ratios:
    for q in socs:
      w, exc = kit.call(S.power_table.lookup, float(r), float(q))
      t.append(dict(ev='table', ratio=r, soc=q, exc=exc, w=kit.flt(w)))
  ts.append(t)
  c.judge('T_Features', ts, env=dict(FOCUS='C14'))
