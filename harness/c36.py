"""C36: accessible pressure range and stable initial state."""
import copy
import kit, simdrv, featdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ specification of the floating equilibrium and of the safe pressure range (spec/PressureRange.tla); '
             'TLC judges recorded calls')
NOTE = 'Random vehicles, suns, infrared values and atmospheres, including ones for which no pressure is safe.'


ASKED = ['pressure', 'envelope_volume_base', 'envelope_volume_dv_pressure', 'envelope_mass', 'payload_mass', 'mols_lift_gas',
         'center_latlng', 'x', 'y', 'date_time', 'upwelling_infrared', 'envelope_max_superpressure', 'power_safety_layer_enabled']


def run(c):
  rng, ts = c.rng, []
  S = featdrv.lib()
  kinds, last = {}, None
  for _ in range(c.n(220, 4000)):
    b, atm = featdrv.random_state(rng, vehicle=rng.random() < 0.6)
    if rng.random() < 0.15:
      b.mols_lift_gas = b.mols_lift_gas * rng.uniform(0.93, 1.03)
    if last and rng.random() < 0.4:   # what was asked before, but for one thing
      k = rng.choice(['atmosphere'] + ASKED)
      if k == 'atmosphere':
        b = copy.deepcopy(last[0])
      else:
        was, atm = last
        was = copy.deepcopy(was)
        setattr(was, k, getattr(b, k))
        b = was
    last = (copy.deepcopy(b), atm)
    d = featdrv.describe(b)
    r, exc = kit.call(S.prb.get_pressure_range, b, atm)
    e = dict(ev='range', exc=exc, t10=featdrv.km10(atm), **d)
    if exc == 'ok':
      e.update(lo=kit.flt(r.min_pressure), hi=kit.flt(r.max_pressure))
    kinds[exc] = kinds.get(exc, 0) + 1
    p, exc = kit.call(S.stable_init.calculate_stable_params_for_pressure, b.pressure, b.envelope_volume_base,
                      b.envelope_volume_dv_pressure, b.envelope_mass, b.payload_mass, b.mols_lift_gas, b.latlng,
                      b.date_time, b.upwelling_infrared, atm)
    s = dict(ev='stable', exc=exc, t10=featdrv.km10(atm), **d)
    if exc == 'ok':
      s['r'] = dict(ta=kit.flt(p.ambient_temperature), ti=kit.flt(p.internal_temperature), mair=kit.flt(p.mols_air),
                    vol=kit.flt(p.envelope_volume), sp=kit.flt(p.superpressure))
    t = [dict(ev='begin'), e, s]
    if rng.random() < 0.3:
      _, exc = kit.call(S.stable_init.cold_start_to_stable_params, b, atm)
      t.append(dict(ev='stable', exc=exc, t10=featdrv.km10(atm), **featdrv.describe(b),
                    r=dict(ta=kit.flt(b.ambient_temperature), ti=kit.flt(b.internal_temperature),
                           mair=kit.flt(b.mols_air), vol=kit.flt(b.envelope_volume), sp=kit.flt(b.superpressure))))
    ts.append(t)
  c.cov['pressure_range_outcomes'] = kinds
  c.judge('T_Features', ts, env=dict(FOCUS='C36'), chunks=8)
