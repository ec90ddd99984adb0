"""C16: named view of the observation."""
import kit, simdrv, featdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the observation encoding and of its named view (spec/Observation.tla); TLC judges '
             'what the real view reports about observations built from recorded balloon states')
NOTE = 'All 361 levels and levels outside the column are queried.'


def run(c):
  import numpy as np
  S = featdrv.lib()
  rng, ts, f = c.rng, [], kit.flt
  for i in range(c.n(120, 1500)):
    b, atm = featdrv.random_state(rng)
    fc, gp, v, exc = featdrv.features_of(rng, b, atm)
    d = featdrv.describe(b)
    t = [dict(ev='begin')]
    n, nexc = kit.call(S.F.NamedPerciatelliFeatures, v)
    e = dict(ev='named', exc=exc if exc != 'ok' else nexc, **d)
    ts.append(t)
    t.append(e)
    if e['exc'] != 'ok':
      continue
    e.update(amb=[f(x) for x in v[:16]], pressure=f(n.balloon_pressure), battery=f(n.battery_charge), solar=f(n.solar_elevation),
             ssin=f(n.sin_normalized_solar_cycle), scos=f(n.cos_normalized_solar_cycle),
             hsin=f(n.sin_heading_to_station), hcos=f(n.cos_heading_to_station), dist=f(n.distance_to_station),
             last=n.last_command.name, paused=f(n.navigation_paused), enabled=f(n.navigation_enabled),
             excess=f(n.has_excess_energy), cost=f(n.descent_cost), ratio=f(n.internal_pressure_ratio),
             levels=int(n.num_pressure_levels), centre=int(n.wind_column_center()))
    # Feature 11 is 1 when navigation is paused, 12 when it is not; the view names them the other way round.
    levels = list(range(361)) if i < 4 else [rng.randrange(361) for _ in range(6)] + [0, 180, 360]
    for lv in levels + [-1, -2, -180, -361, -362, 361, 362, 1000]:
      lv2 = np.int64(lv) if rng.random() < 0.2 else lv
      w, wexc = kit.call(n.wind_at, lv2)
      q = dict(ev='level', level=lv, exc=wexc)
      if wexc == 'ok':
        real, rexc = kit.call(S.F.convert_wind_feature_to_real_wind, w)
        q.update(u=f(w.uncertainty), b=f(w.bearing), m=f(w.magnitude), valid=bool(n.level_is_valid(lv2)), rexc=rexc)
        if rexc == 'ok':
          q.update(rb=f(real.bearing), rm=f(real.magnitude), ru=f(real.uncertainty))
        if n.magnitude(lv2) != w.magnitude or n.bearing(lv2) != w.bearing or n.uncertainty(lv2) != w.uncertainty:
          q['u'] = 'accessors-disagree'
        if 0 <= lv <= 360:
          q['w'] = [f(x) for x in v[16 + 3 * lv:19 + 3 * lv]]
      t.append(q)
  c.judge('T_Features', ts, env=dict(FOCUS='C16'))
