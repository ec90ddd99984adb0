"""C26: sharded evaluation and combination of result files."""
import hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
import kit, evaldrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ definition of the shards and their combination (spec/Evaluation.tla); TLC checks the partition for '
             'every suite length and shard count in range (MC_Shards) and judges real runs of the evaluation and '
             'combination programs (T_Shards)')
NOTE = ('The evaluation program runs with a scripted environment whose episodes end early; the shard arithmetic is '
        'checked for lengths up to 300 and up to 40 shards, the program for selected ones.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxN = {n}
  MaxK = {k}
INVARIANTS Covers Consecutive Balanced
CHECK_DEADLOCK FALSE
'''
DOC = dict(big_eval=10000, medium_eval=1000, small_eval=100, tiny_eval=10, micro_eval=1)


def dig(x):
  return hashlib.md5(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]


NOPATH = dig([])


def entries(path):
  with open(path) as f:
    data = json.load(f)
  return data, [dict(s=d['seed'], d=dig({k: v for k, v in d.items() if k != 'flight_path'}),
                     p=dig(d['flight_path'])) for d in data]


class Program:
  """The evaluation program, in process, with a scripted environment."""

  def __init__(self, c):
    import gym
    from absl import flags
    from balloon_learning_environment.eval import eval as ev
    from balloon_learning_environment.eval import suites
    self.c, self.ev, self.flags, self.suites, self.gym = c, ev, flags.FLAGS, suites, gym

  def run(self, out, **kw):
    rng, log = self.c.rng, []
    env = evaldrv.Env(rng, log, Ends(rng), 50.0)
    orig = self.gym.make
    import gin
    gin.clear_config()   # as in a new process
    self.gym.make = lambda *a, **k: env
    try:
      args = ['eval', f'--output_dir={out}', '--agent=random', '--wind_field=simple']
      for k, v in kw.items():
        args.append(f'--{k}={v}')
      self.flags.unparse_flags()
      for f in ('name_override', 'checkpoint_idx', 'num_shards', 'shard_idx', 'pretty_json', 'suite'):
        self.flags[f].unparse()
      self.flags(args)
      _, how = kit.call(self.ev.main, ['eval'])
    finally:
      self.gym.make = orig
    played, rewards = [], []
    for e in log:
      if e['op'] == 'seed':
        played.append(e['s'])
        rewards.append(0.0)
      elif e['op'] == 'step' and rewards:
        rewards[-1] += float(e['r'])
    return how, played, rewards


class Ends(list):
  """Every episode ends within a few steps."""

  def __init__(self, rng):
    super().__init__()
    self.rng = rng

  def __bool__(self):
    return True

  def pop(self, i=0):
    return self.rng.choice(['none', 'oop', 'burst', 'zero', 'oop'])


def suite_event(c, suites, name):
  s, how = kit.call(suites.get_eval_suite, name)
  seeds = [kit.enc(x) for x in s.seeds] if how == 'ok' else []
  if how == 'ok':
    kit.call(s.seeds.reverse)   # what a caller does with its copy
    kit.call(s.seeds.pop)
  t, _ = kit.call(suites.get_eval_suite, name)
  return dict(op='suite', name=name, how=how, seeds=seeds, doc=DOC.get(name, -1), l=kit.enc(s.max_episode_length),
              again=[kit.enc(x) for x in t.seeds])


def sharded(c, prog, suite, ks):
  """For each model name, its own number of shards; then all are combined."""
  root = tempfile.mkdtemp(prefix='shards_', dir=kit.workdir())
  tr = [dict(op='new'), suite_event(c, prog.suites, suite)]
  rng = c.rng
  names = rng.sample(['random', 'random_walk', 'quantile', 'quantile_5', 'a', 'a_b', 'a_b_1x', 'ab', 'm[1]', 'm1',
                      'x*', 'xy', 'model.v2'], len(ks))
  if 'random' in names or rng.random() < 0.5:
    names = list(dict.fromkeys(['random', 'random_walk'] + names))[:max(2, len(ks))]
    ks = (list(ks) + [2, 2])[:len(names)]
  clash = {'quantile', 'quantile_5'} <= set(names)
  if clash:   # quantile_5.json would look like a shard of quantile
    ks = [max(k, 2) for k in ks]
  d = os.path.join(root, suite)
  try:
    for m, k in zip(names, ks):
      for i in range(k):
        kw = dict(suite=suite, num_shards=k, shard_idx=i)
        how_named = rng.random()
        name = m
        if m == 'quantile_5':
          kw.update(name_override=m)
        elif m == 'random' and how_named < 0.5:
          pass   # the agent's name is the default
        else:
          kw.update(name_override=m)
        if rng.random() < 0.3:
          kw['pretty_json'] = 'true'
        before = set(os.listdir(d)) if os.path.isdir(d) else set()
        how, played, rewards = prog.run(root, **kw)
        wrote = sorted(set(os.listdir(d)) - before) if os.path.isdir(d) else []
        data, ent = entries(os.path.join(d, wrote[0])) if len(wrote) == 1 else ([], [])
        tr.append(dict(op='shard', model=m, i=i, k=k, how=how, played=played, wrote=wrote,
                       name=f'{name}_{i}.json' if k > 1 else f'{name}.json', ent=ent,
                       rewards=[kit.flt(round(x['cumulative_reward'], 9)) for x in data],
                       expected=[kit.flt(round(r, 9)) for r in rewards]))
    # Files that belong to nobody.
    os.makedirs(d, exist_ok=True)
    for s in ('random_notes.txt', 'a_summary.json', 'quantile_final.json', 'readme_1.txt'):
      if rng.random() < 0.5:
        with open(os.path.join(d, s), 'w') as f:
          f.write('[]' if s.endswith('.txt') else '[{"seed": 1, "cumulative_reward": 7.0, "flight_path": []}]')
    keep = {f: open(os.path.join(d, f)).read() for f in os.listdir(d)}
    todo = [m for m, k in zip(names, ks) if k > 1]
    if clash:
      todo.sort()
    combine(c, d, todo, tr, rng.random() < 0.5)
    if not clash and rng.random() < 0.5:   # combining again changes nothing
      combine(c, d, todo[::-1], tr, rng.random() < 0.5)
    mine = {m + '.json' for m in todo}
    tr.append(dict(op='intact', same=all(os.path.exists(os.path.join(d, f)) and open(os.path.join(d, f)).read() == t
                                         for f, t in keep.items() if f not in mine)))
  finally:
    shutil.rmtree(root, ignore_errors=True)
  return tr


def combine(c, d, models, tr, paths, key=None):
  if not models:
    return
  cmd = [sys.executable, '-W', 'ignore', '-m', 'balloon_learning_environment.eval.combine_eval_shards', f'--path={d}']
  cmd += [f'--models={m}' for m in models] + (['--flight_paths'] if paths else [])
  if c.rng.random() < 0.3:
    cmd.append('--pretty_json')
  e = dict(os.environ, PYTHONPATH=kit.REPO)
  p = subprocess.run(cmd, env=e, cwd=kit.workdir(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
  for m in models:
    path = os.path.join(d, m + '.json')
    how = 'ok' if p.returncode == 0 and os.path.exists(path) else 'failed'
    ent = entries(path)[1] if how == 'ok' else []
    ev = dict(op='combine', model=m, how=how, paths=paths, ent=ent, nopath=NOPATH)
    if key:
      ev['key'] = key
    tr.append(ev)


def ambiguous(c):
  """The result of a checkpoint, unsharded, beside shards of the same name."""
  d = tempfile.mkdtemp(prefix='shards_', dir=kit.workdir())
  tr = [dict(op='new')]
  try:
    for f, s, m in (('quantile_0.json', 0, 'quantile'), ('quantile_1.json', 1, 'quantile'),
                    ('quantile_50.json', 0, 'quantile_50')):
      with open(os.path.join(d, f), 'w') as fd:
        json.dump([dict(seed=s, cumulative_reward=1.0 + len(f), flight_path=[])], fd)
      tr.append(dict(op='other', model=m, ent=entries(os.path.join(d, f))[1]))
    combine(c, d, ['quantile'], tr, False, key='quantile_50.json beside shards of quantile')
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return tr


def handmade(c):
  """Shards of every sort: empty, unsorted, the same seed or the same result twice, more than ten."""
  rng = c.rng
  d = tempfile.mkdtemp(prefix='shards_', dir=kit.workdir())
  tr = [dict(op='new')]
  models = rng.sample(['a', 'b_1x', 'random', 'p.q', 'A'], 3)
  try:
    for m in models:
      recs = [dict(seed=s, cumulative_reward=rng.choice([1.0, 0.5, rng.random()]),
                   flight_path=[dict(x=rng.random(), power=1.0)] * rng.randrange(3)) for s in
              [rng.choice([rng.randrange(12), rng.randrange(10**9)]) for _ in range(rng.randrange(4, 14))]]
      recs += rng.sample(recs, 2)
      rng.shuffle(recs)
      k = rng.choice([2, 3, 12])
      for i in range(k):
        f = os.path.join(d, f'{m}_{i}.json')
        with open(f, 'w') as fd:
          json.dump(recs[i::k], fd)
        tr.append(dict(op='other', model=m, ent=entries(f)[1]))
    combine(c, d, models, tr, rng.random() < 0.7)
  finally:
    shutil.rmtree(d, ignore_errors=True)
  return tr


def roundtrips(c, n):
  """Results with values of every kind encoded to JSON and read back."""
  import datetime as dt
  import jax.numpy as jnp
  import numpy as np
  from balloon_learning_environment.eval import eval_lib
  from balloon_learning_environment.utils import units
  rng, tr = c.rng, [dict(op='new')]
  def num():
    x = rng.choice([0.0, 1.0, 1e-300, 1e300, 0.1, rng.random(), rng.uniform(-1e6, 1e6), 2.0 / 3.0])
    return rng.choice([x, np.float64(x), np.array(x), np.array([x]), jnp.array(min(x, 1e30), jnp.float32)])
  val = lambda x: kit.flt(np.asarray(x).reshape(()) if np.asarray(x).size == 1 else x)
  for _ in range(n):
    path = [eval_lib.SimpleBalloonState(units.Distance(km=rng.uniform(-300, 300)), units.Distance(m=rng.uniform(-9, 9)),
                                        num(), num(), dt.timedelta(seconds=rng.randrange(10**6), microseconds=rng.randrange(10**6)), num())
            for _ in range(rng.randrange(3))]
    r = eval_lib.EvaluationResult(seed=rng.randrange(10**9), cumulative_reward=num(), time_within_radius=num(),
                                  out_of_power=rng.random() < .5, envelope_burst=rng.random() < .5,
                                  zeropressure=rng.random() < .5, final_timestep=rng.randrange(961), flight_path=path)
    want = dict(seed=r.seed, cumulative_reward=val(r.cumulative_reward), time_within_radius=val(r.time_within_radius),
                out_of_power=r.out_of_power, envelope_burst=r.envelope_burst, zeropressure=r.zeropressure,
                final_timestep=r.final_timestep)
    for i, s in enumerate(path):
      want.update({f'x{i}': val(s.x.kilometers), f'y{i}': val(s.y.kilometers), f'p{i}': val(s.pressure),
                   f's{i}': val(s.superpressure), f'e{i}': val(s.time_elapsed.total_seconds()), f'b{i}': val(s.battery_soc)})
    o, how = kit.call(lambda: json.loads(json.dumps(r, cls=eval_lib.EvalResultEncoder)))
    got = {}
    if how == 'ok':
      got = {k: (v if isinstance(v, (bool, int)) else kit.flt(v)) for k, v in o.items() if k != 'flight_path'}
      for i, s in enumerate(o['flight_path']):
        got.update({f'x{i}': kit.flt(s['x']), f'y{i}': kit.flt(s['y']), f'p{i}': kit.flt(s['pressure']),
                    f's{i}': kit.flt(s['superpressure']), f'e{i}': kit.flt(s['elapsed_seconds']), f'b{i}': kit.flt(s['power'])})
    tr.append(dict(op='json', how=how, **{'in': want, 'out': got}))
  return tr


def run(c):
  c.model('MC_Shards', CFG.format(n=c.n(150, 300), k=c.n(25, 40)))
  prog = Program(c)
  ts = []
  plan = c.n([('tiny_eval', [3, 4]), ('tiny_eval', [13]), ('small_eval', [7, 2]), ('micro_eval', [2, 1, 3]),
              ('hard_strata', [6])],
             [('tiny_eval', [k, 12 - k]) for k in range(1, 12)]
             + [('small_eval', [k]) for k in (3, 6, 7, 9, 11, 13, 99, 101)]
             + [('micro_eval', [1, 2, 3]), ('medium_eval', [17]), ('all_strata', [7, 3]), ('easiest_strata', [29]),
                ('mid_strata', [4, 5, 6])])
  for suite, ks in plan:
    ts.append(sharded(c, prog, suite, ks))
  ts.append([dict(op='new')] + [suite_event(c, prog.suites, s) for s in prog.suites.available_suites()]
            + [dict(op='unknown', how=kit.call(prog.suites.get_eval_suite, s)[1]) for s in ('', 'big', 'huge_eval')])
  ts.append(ambiguous(c))
  for _ in range(c.n(2, 12)):
    ts.append(handmade(c))
  ts.append(roundtrips(c, c.n(60, 1000)))
  c.judge('T_Shards', ts)
