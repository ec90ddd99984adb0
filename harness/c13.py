"""C13: initial conditions."""
import collections, datetime as dt, math
import numpy as np
import kit, simdrv, featdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of the documented ranges and laws (spec/Initial.tla); TLC checks the extremes of every '
             'draw (MC_Initial) and judges recorded resets and sampler calls, whose draws it counts against the laws '
             '(T_Initial)')
NOTE = 'Laws and independence are checked statistically (below one in a million); the start is judged for every seed tried.'
CFG = '''SPECIFICATION Spec
CONSTANTS
  Steps = {levels}
  Irs = {irs}
  Lats <- LatsDef
  Hours = {hours}
  Days = {days}
  Alphas = {{0, 1, 2}}
INVARIANTS NeverBursts NeverCollapses NeedsAir Balanced FloorIsDense
CHECK_DEADLOCK FALSE
'''
F = kit.flt


def start_event(seed, b, atm, exc):
  if exc != 'ok':
    return dict(ev='reset', seed=seed, exc=exc)
  return dict(ev='reset', seed=seed, exc=exc, t10=featdrv.km10(atm), k=simdrv.rec_vehicle(b), s=simdrv.rec_state(b),
              last=b.last_command.name, paused=bool(b.navigation_is_paused), guarded=bool(b.power_safety_layer_enabled))


def floor_of(atm):
  from balloon_learning_environment.env.balloon import altitude_safety
  return atm.at_height(featdrv.lib().units.Distance(feet=50000)).pressure


def draw_of(b, atm):
  t10 = float(featdrv.km10(atm))
  ll = b.center_latlng
  return dict(radius=F(math.hypot(b.x.kilometers, b.y.kilometers) / 200.0),
              theta=F(math.atan2(b.y.meters, b.x.meters)), lat=F(ll.lat().degrees), lng=F(ll.lng().degrees),
              time=F(simdrv.ts_of(b.date_time)), level=F((b.pressure - 6500.0) / (floor_of(atm) - 6500.0)),
              lapse=F(((t10 - 300.0) / 10610.0 + 0.007) / 0.0012))


class Arena:
  """One simulator, reset again and again, flown in between."""

  def __init__(self, rng, kind):
    S = featdrv.lib()
    from balloon_learning_environment.env import balloon_arena
    self.S, self.rng, self.kind = S, rng, kind
    wf, _ = simdrv.make_windfield(rng.choice(['analytic', 'static']), rng)
    if kind == 'arena':
      self.it = balloon_arena.BalloonArena(simdrv.light_features(), wf, rng.randrange(2**31))
    else:
      self.it = S.balloon_env.BalloonEnv(wind_field_factory=lambda: wf, seed=rng.randrange(2**31),
                                         **({} if kind == 'full' else dict(feature_constructor_factory=simdrv.light_features())))

  def now(self):
    a = self.it if self.kind == 'arena' else self.it.arena
    return a.get_balloon_state(), a.get_simulator_state().atmosphere

  def reset(self, seed):
    rng, jax = self.rng, self.S.jax
    if self.kind == 'arena':
      s = rng.choice([seed, jax.random.PRNGKey(seed), np.asarray(jax.random.PRNGKey(seed))])
      _, exc = kit.call(self.it.reset, s)
    else:
      _, exc = kit.call(self.it.seed, seed)
      if exc == 'ok':
        _, exc = kit.call(self.it.reset)
    return exc

  def disturb(self):
    """Leaves as much behind as possible for the next reset to clear."""
    b, _ = self.now()
    rng, u = self.rng, self.S.units
    k = rng.randrange(6)
    if k == 0: b.battery_charge = u.Energy(watt_hours=0.2)
    if k == 1: b.mols_air = b.mols_air + 20000.0
    if k == 2: b.power_safety_layer_enabled = False
    if k == 3: b.pressure = 14000.0
    for _ in range(rng.randrange(1, 5)):
      a = rng.randrange(3)
      _, exc = kit.call(self.it.step, self.S.C(a) if self.kind == 'arena' else a)
      if exc != 'ok': break


def starts(c, kind, seeds, repeat, draws, irs):
  ar, t = Arena(c.rng, kind), [dict(ev='begin')]
  for seed in seeds + c.rng.sample(seeds, repeat):
    exc = ar.reset(seed)
    b, atm = ar.now()
    t.append(start_event(f'{"env" if kind != "arena" else "arena"}{seed}', b, atm, exc))
    if exc == 'ok' and draws is not None and len(t) <= len(seeds) + 1:
      draws.append(dict(ev='draw', q=draw_of(b, atm)))
      irs.append(round(b.upwelling_infrared, 5))
    if c.rng.random() < 0.15:
      ar.disturb()
  return t


def samplers(c, n):
  S = featdrv.lib()
  rng, sm, jax = c.rng, S.sampling, S.jax
  t, draws, irs = [dict(ev='begin')], [dict(ev='begin')], []
  atms = [S.standard_atmosphere.Atmosphere(jax.random.PRNGKey(rng.randrange(2**31))) for _ in range(6)]
  def sample(what, seed, fn, enc, legal=True, tag='', **kw):
    v, exc = kit.call(fn, jax.random.PRNGKey(seed))
    e = dict(ev='sample', what=what, seed=f'{what}{tag}:{seed}', legal=legal, exc=exc, **kw)
    if exc == 'ok' and legal:
      e['v'] = enc(v)
    t.append(e)
    return v if exc == 'ok' else None
  ts, te = 1293840000, 1419984000
  for i in range(n):
    for seed in ([rng.randrange(2**31)] if i % 20 else [i, i]):
      q = {}
      v = sample('place', seed, sm.sample_location, lambda v: [F(v.lat().radians), F(v.lng().radians)])
      if v is not None: q.update(slat=F(v.lat().degrees), slng=F(v.lng().degrees))
      v = sample('time', seed, sm.sample_time, lambda v: F(simdrv.ts_of(v)), lo=ts, hi=te)
      if v is not None: q.update(stime=F(simdrv.ts_of(v)))
      if i % 3 == 0:
        lo = dt.datetime(rng.randint(1990, 2030), rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), tzinfo=simdrv.UTC)
        secs = rng.choice([1, 2, 60, 3600, 86400, 30 * 86400 + 7])
        hi = lo + dt.timedelta(seconds=secs)
        v = sample('time', seed, lambda k: sm.sample_time(k, lo, hi), lambda v: F(simdrv.ts_of(v)), tag=f'{lo}{secs}',
                   lo=int(simdrv.ts_of(lo)), hi=int(simdrv.ts_of(hi)))
        if v is not None and secs > 3000: q.update(span=F(((v - lo).total_seconds() + 0.5) / secs))
      a = rng.randrange(len(atms))
      for k in rng.sample([None, a], 2):
        if k is None:
          v = sample('pressure', seed, sm.sample_pressure, F, t10='None')
          if v is not None: q.update(spressure=F(v))
        else:
          v = sample('pressure', seed, lambda k: sm.sample_pressure(k, atms[a]), F, tag=f'a{a}', t10=featdrv.km10(atms[a]))
          if v is not None: q.update(slevel=F((v - 6500.0) / (floor_of(atms[a]) - 6500.0)))
      v = sample('infrared', seed, sm.sample_upwelling_infrared, F)
      if v is not None: irs.append(round(v, 5))
      if i % 2 == 0:
        v = sample('infrared', seed, lambda k: sm.sample_upwelling_infrared(k, 'inverse_lognormal'), F, tag='inv')
        if v is not None: q.update(inverse=F(v))
        v = sample('infrared', seed, lambda k: sm.sample_upwelling_infrared(k, 'logit_normal'), F)
      draws.append(dict(ev='draw', q=q))
  for bad in ('normal', '', 'LogitNormal', 'lognormal'):
    sample('infrared', 1, lambda k: sm.sample_upwelling_infrared(k, bad), F, legal=False, tag='bad')
  return t, draws, irs


def run(c):
  rng = c.rng
  c.model('MC_Initial', CFG.format(levels=c.n(2, 6), irs=c.n('{225, 270, 315}', '{225, 250, 275, 300, 315}'),
                                   hours=c.n('{0, 6, 12}', '{0, 3, 6, 7, 9, 12, 15, 18, 19, 22}'),
                                   days=c.n('{0, 171}', '{0, 45, 80, 171, 264, 1095}')), workers=8)
  ts, draws, irs = [], [dict(ev='begin')], []
  for i in range(8):
    n = c.n(160, 700)
    seeds = [rng.randrange(2**31) for _ in range(n)] + [i, 2**31 - 1 - i]
    ts.append(starts(c, ['arena', 'env', 'arena', 'env', 'arena', 'env', 'arena', 'arena'][i], seeds, n // 9, draws, irs))
  ts.append(starts(c, 'full', [rng.randrange(1000) for _ in range(c.n(6, 40))], 2, None, None))
  t, more, irs2 = samplers(c, c.n(500, 5000))
  ts += [t]
  for ir in (irs, irs2):
    top = collections.Counter(ir).most_common(1)[0][1]
    ts.append([dict(ev='begin'), dict(ev='infrared', n=len(ir), distinct=len(set(ir))),
               dict(ev='spread', n=len(ir), top=top, key='upwelling-infrared-saturates')])
  ts += [draws + [dict(ev='settle')], more + [dict(ev='settle')]]
  c.cov['resets'] = len(irs)
  c.cov['infrared_values'] = len(set(irs))
  c.judge('T_Initial', ts, chunks=8)
