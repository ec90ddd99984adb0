"""C19: wind fields answer consistently; truth is forecast plus noise."""
import kit, winddrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLC explores every interleaving of resets and queries of two wind fields (MC_WindProtocol); the tour of its '
             'state graph is replayed into every kind of wind field and TLC judges the recorded answers against '
             'spec/WindField.tla (T_Wind)')
NOTE = ('The single harmonics (OpenSimplex values) are taken from the real harmonic class at coordinates the '
        'specification prescribes; their weights, spacings and normalisation are the specification\'s.')


def run(c):
  g = kit.Graph(c.model('MC_WindProtocol', 'SPECIFICATION Spec\nINVARIANTS SameKeySameAnswer OtherKeyOtherAnswer\nCHECK_DEADLOCK FALSE', workers=1))
  ts = []
  kinds = ['static', 'grid'] * c.n(4, 60) + ['gen', 'old'] * c.n(1, 6)
  for kind in kinds:
    for start, path in g.tour(c.rng, max_len=c.n(400, 2000)):
      d = winddrv.Fields(c.rng, kind)
      for a, _ in path:
        d.act(a)
      ts.append(d.t)
  for _ in range(c.n(10, 150)):
    ts += [winddrv.harmonics(c.rng, 'u'), winddrv.harmonics(c.rng, 'v')]
  ts += [winddrv.variance(c.rng, c.n(900, 5000)), winddrv.adds(c.rng)]
  c.cov['protocol_edges'] = g.n_edges
  c.judge('T_Wind', ts, chunks=8)
