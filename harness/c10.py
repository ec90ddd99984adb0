"""C10: composition of the safety layers."""
import kit, simdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ flight model (spec/Flight.tla: substep function, safety layers, step); TLC judges recorded '
             'simulator flights, environment episodes and single substeps against it')
NOTE = ('Every recorded substep and step is compared with the specified next state; flights are random, '
        'including ones made to end in each terminal event. Trusts TLC and the Java float override.')

LAYERS = '''SPECIFICATION Spec
INVARIANTS TypeOK DescentIsCommandedAndPermitted AscentIsCommandedOrForced ForcedAscent
  UpIsNeverBlocked DisabledPowerNeverPauses
CHECK_DEADLOCK FALSE
'''


def run(c):
  c.model('MC_Layers', LAYERS)
  ts = simdrv.flight_traces(c, sub=c.n((20, 40), (200, 80)), step=c.n((20, 60), (200, 200)),
                            env=c.n((8, 60), (60, 300)))
  covered = set()
  for i in range(c.n(60, 600)):
    t, cov = simdrv.layer_walk(c.rng, 60, enabled=i % 3 != 0)
    ts.append(t)
    covered |= cov
  c.cov['zone_command_pause_combinations'] = len(covered)
  c.judge('T_Flight', ts, env=dict(FOCUS='C10'))
