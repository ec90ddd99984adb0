"""C04: pump, vent or nothing."""
import kit, simdrv
LEVEL = 'exploration'
TECHNIQUE = ('TLA+ flight model (spec/Flight.tla: substep function, safety layers, step); TLC judges recorded '
             'simulator flights, environment episodes and single substeps against it')
NOTE = ('Every recorded substep and step is compared with the specified next state; flights are random, '
        'including ones made to end in each terminal event. Trusts TLC and the Java float override.')


def run(c):
  ts = simdrv.flight_traces(c, sub=c.n((70, 60), (900, 120)), step=c.n((12, 40), (150, 100)),
                            env=c.n((8, 40), (60, 200)))
  c.judge('T_Flight', ts, env=dict(FOCUS='C04'))
  c.judge('T_Physics', [simdrv.physics(c.rng, 200, ['acs']) for _ in range(c.n(4, 60))])
