"""C27: the training loop, its crashes and its restarts."""
import kit, traindrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the training loop with crashes and restarts (spec/Train.tla, MC_Train), checked with '
             'TLC; every transition of the model is replayed into the real loop, learning agents and checkpoint '
             'store, and TLC judges the recorded events (T_Train)')
NOTE = ('Small configurations (up to 3 iterations, 2 episodes, step limit 3, 2 crashes). The agents choose scripted '
        'actions; their checkpointing is real. A crash is an exception no handler catches.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  Cfgs <- {cfgs}
  MaxCrashes = {crashes}
INVARIANTS NoIterationRepeatedOrSkipped DiskIsDone ResumesAfterNewest RunningIterationIsNotDone
  WithinLimits FinishedMeansAllDone NoActionAfterTerminal
'''
EMIT = 'INVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\n'


def run(c):
  c.model('MC_Train', CFG.format(cfgs='CfgsThorough', crashes=c.n(2, 3)) + 'CHECK_DEADLOCK FALSE\n', name='MC_Train')
  r = c.model('MC_Train', CFG.format(cfgs=c.n('CfgsQuick', 'CfgsThorough'), crashes=c.n(1, 2)) + EMIT
              + 'CHECK_DEADLOCK FALSE\n', name='MC_Train_replayed', workers=1)
  g = kit.Graph(r)
  traindrv.bind()
  ts, fin = [], 0
  for kind in ('dqn', 'quantile'):
    for start, path in g.tour(c.rng, max_len=60):
      t, f = traindrv.replay(c.rng, g.nodes[start], path, kind)
      ts.append(t)
      fin += f
  c.cov.update(model_edges_replayed=g.n_edges, runs_finished=fin,
               crashes=sum(e['op'] == 'crash' for t in ts for e in t))
  c.judge('T_Train', ts)
