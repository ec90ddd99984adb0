"""C18: the reward."""
import copy
import kit, simdrv, featdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the reward (spec/Observation.tla); TLC judges rewards recorded from the real reward '
             'function and from environment steps')
NOTE = 'Random states around every boundary (radius, excess energy, compressor power), default and other parameters.'


def run(c):
  S = featdrv.lib()
  rng, ts, f = c.rng, [], kit.flt
  R = S.balloon_env.perciatelli_reward_function
  default = dict(radius=50.0, dropoff=0.4, halflife=100.0)

  def event(b, atm, par=None, stepped=None):
    st = S.sd.SimulatorState(b, None, atm)
    kw = {} if par is None else dict(station_keeping_radius_km=par['radius'], reward_dropoff=par['dropoff'],
                                     reward_halflife=par['halflife'])
    r, exc = kit.call(R, st, **kw)
    e = dict(ev='reward', exc=exc, par={k: f(v) for k, v in (par or default).items()}, **featdrv.describe(b))
    e['reward'] = f(r)
    if stepped is not None: e['stepped'] = f(stepped)
    return e

  for _ in range(c.n(500, 10000)):
    b, atm = featdrv.random_state(rng)
    k = rng.random()
    if k < 0.08: b.x, b.y = S.units.Distance(m=50000.0), S.units.Distance(m=0.0)
    elif k < 0.16: b.x, b.y = S.units.Distance(m=30000.0), S.units.Distance(m=-40000.0)
    elif k < 0.3: b.x, b.y = S.units.Distance(m=50000.0 + rng.choice([-1, 1]) * 10 ** rng.uniform(-4, 3)), S.units.Distance(m=0.0)
    par = rng.choice([None, None, dict(radius=rng.choice([25.0, 50.0, 100.0]), dropoff=rng.uniform(0, 1), halflife=rng.uniform(10, 300))])
    e = event(b, atm, par)
    b2 = copy.copy(b)   # farther out, everything else the same
    z = rng.uniform(1, 3)
    b2.x, b2.y = b.x * z, b.y * z
    sun_same = not (b.last_command == S.C.DOWN)
    if sun_same:
      e['farther'] = event(b2, atm, par)['reward']
    ts.append([dict(ev='begin'), e])
  drv = [simdrv.EnvDriver(rng, 'analytic'), simdrv.EnvDriver(rng, 'static')]
  for i in range(c.n(12, 80)):
    d = drv[i % 2]
    d.env.reset(seed=rng.randrange(2**31))
    t = [dict(ev='begin')]
    cmd = simdrv.Commands(rng)
    for _ in range(c.n(40, 200)):
      (_, rew, term, _), exc = kit.call(d.env.step, int(S.C[cmd()]))
      t.append(event(d.b, d.env.get_simulator_state().atmosphere, None, rew))
      if term: break
    ts.append(t)
  # The reward range the environment declares.
  c.judge('T_Features', ts, env=dict(FOCUS='C18'))
