"""C25: evaluation protocol and accounting."""
import kit, evaldrv, simdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the evaluation (spec/Evaluation.tla, MC_Eval) checked with TLC; every transition is '
             'replayed through the real eval_agent, and TLC judges the recorded protocol, the results and their '
             'JSON form against the accounting (T_Eval)')
NOTE = ('Suites of up to 3 seeds and 4 steps exhaustively against a scripted environment, longer ones at random; '
        'the real environment is evaluated with seeds together, alone and reordered.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  Cfgs <- {cfgs}
INVARIANTS OneResultPerSeedInOrder WithinTheLimit ShortOnlyIfTerminal DoneMeansAll EmitInit
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''


def together_and_alone(c):
  """Results of the real environment do not depend on the rest of the suite."""
  from balloon_learning_environment.env import balloon_env, wind_field
  from balloon_learning_environment.eval import eval_lib, suites
  S = simdrv.sim()
  ev = []
  def fresh():
    return balloon_env.BalloonEnv(wind_field_factory=wind_field.SimpleStaticWindField, seed=c.rng.randrange(1000))
  seeds = c.rng.sample(range(10000), c.n(3, 6))
  steps = c.n(12, 60)
  env = fresh()
  def results(env, ss):
    out = eval_lib.eval_agent(evaldrv.Hashing(), env, suites.EvaluationSuite(list(ss), steps))
    return {r.seed: kit.hashlib.md5(repr(evaldrv.rec_result(r)).encode()).hexdigest() for r in out}
  a = results(env, seeds)
  back = results(env, seeds[::-1])
  alone = results(fresh(), seeds[1:2])
  for s in seeds:
    ev.append(dict(op='same', seed=s, a=a.get(s, 'none'), b=back.get(s, 'none')))
  ev.append(dict(op='same', seed=seeds[1], a=a.get(seeds[1], 'none'), b=alone.get(seeds[1], 'none')))
  c.cov['real_results_distinct'] = len(set(a.values()))
  return [dict(op='suite', cfg=dict(n=0, l=1, p=1, path=True, radius='1.0'), seeds=[])] + ev


def run(c):
  r = c.model('MC_Eval', CFG.format(cfgs=c.n('CfgsQuick', 'CfgsThorough')), workers=1)
  g = kit.Graph(r)
  ts = []
  for _ in range(c.n(2, 10)):
    for start, path in g.tour(c.rng, max_len=60):
      ts.append(evaldrv.replay(c.rng, g.nodes[start]['cfg'], [a['c'] for a, _ in path if a['op'] == 'step']))
  for _ in range(c.n(10, 100)):
    l = c.rng.randrange(1, 60)
    n = c.rng.randrange(1, 5)
    causes = [c.rng.choice(['none'] * 40 + ['oop', 'burst', 'zero']) for _ in range(l * n)]
    ts.append(evaldrv.replay(c.rng, dict(n=n, l=l), causes))
  ts.append(together_and_alone(c))
  c.cov['model_edges_replayed'] = g.n_edges
  c.judge('T_Eval', ts)
