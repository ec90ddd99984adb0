"""C34: names, model files, bindings, registration."""
import json, os, shutil, subprocess, sys, tempfile, warnings
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ definition of what names stand for, where model files are looked for and which binding counts '
             '(spec/Registry.tla); TLC enumerates the combinations of present and missing files and of bindings '
             '(MC_Registry), each is carried out with the real code, and the outcomes are judged by TLC (T_Registry)')
NOTE = ('Neither model file is shipped with the repository: files with random content stand in for them. The search is '
        'carried out on a copy of the package, since the installed package is one of the places.')
CFG = '''SPECIFICATION Spec
INVARIANTS PathIsObeyed FoundIfThere PackageFirst LaterWins Emit
CHECK_DEADLOCK FALSE
'''
FILES = dict(offlineskies22='offlineskies22_decoder.msgpack', perciatelli44='perciatelli44.pb')
# Runs in its own process, with a copy of the package and a working directory.
SEARCH = r'''
import json, os, sys
copy, cwd, cases = sys.argv[1], sys.argv[2], json.load(open(sys.argv[3]))
sys.path.insert(0, copy)
import gin
from balloon_learning_environment.models import models
assert os.path.realpath(models.__file__).startswith(os.path.realpath(copy))
os.chdir(cwd)
FILES = {'offlineskies22': 'offlineskies22_decoder.msgpack', 'perciatelli44': 'perciatelli44.pb'}
out = []
for x in cases:
  places = dict(path=os.path.join(cwd, 'given', x['name']),
                package=os.path.join(copy, 'balloon_learning_environment', 'models', FILES[x['model']]),
                default=os.path.join(cwd, 'balloon_learning_environment', 'models', FILES[x['model']]))
  have = dict(path=x['there'], package=x['package'], default=x['default'])
  content = {}
  for k, p in places.items():
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p):
      os.remove(p)
    if have[k]:
      content[k] = k.encode() + bytes(range(256)) * x['size']
      with open(p, 'wb') as f:
        f.write(content[k])
  load = {'offlineskies22': models.load_offlineskies22, 'perciatelli44': models.load_perciatelli44}[x['model']]
  gin.clear_config()
  if x['how'] == 'gin':
    gin.bind_parameter('load_%s.path' % x['model'], places['path'])
  try:
    got = load(places['path']) if x['how'] == 'arg' else load()
    r = [k for k, b in content.items() if b == got]
    r = r[0] if r else 'other'
  except Exception as e:
    r = type(e).__name__
  out.append(r)
  for p in places.values():
    if os.path.exists(p):
      os.remove(p)
json.dump(out, open(sys.argv[4], 'w'))
'''


def search(c, cases):
  root = tempfile.mkdtemp(prefix='models_', dir=kit.workdir())
  try:
    copy, cwd = os.path.join(root, 'copy'), os.path.join(root, 'work')
    os.makedirs(cwd)
    shutil.copytree(os.path.join(kit.REPO, 'balloon_learning_environment'),
                    os.path.join(copy, 'balloon_learning_environment'),
                    ignore=shutil.ignore_patterns('__pycache__', '*_test.py', '*.gif'))
    with open(os.path.join(root, 'search.py'), 'w') as f:
      f.write(SEARCH)
    with open(os.path.join(root, 'cases.json'), 'w') as f:
      json.dump(cases, f)
    env = {k: v for k, v in os.environ.items() if k != 'PYTHONPATH'}
    r = subprocess.run([sys.executable, '-W', 'ignore', os.path.join(root, 'search.py'), copy, cwd,
                        os.path.join(root, 'cases.json'), os.path.join(root, 'out.json')],
                       cwd=root, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode:
      raise RuntimeError(r.stderr[-2000:])
    with open(os.path.join(root, 'out.json')) as f:
      return [dict(x, out=o) for x, o in zip(cases, json.load(f))]
  finally:
    shutil.rmtree(root)


def bindings(c, cases):
  import gin
  from balloon_learning_environment.utils import run_helpers
  root = tempfile.mkdtemp(prefix='gin_', dir=kit.workdir())
  rng, out = c.rng, []
  PAR = 'networks.MLPNetwork.hidden_units'

  def file(v, also=''):
    fd, p = tempfile.mkstemp(suffix='.gin', dir=root)
    with os.fdopen(fd, 'w') as f:
      f.write(f'import balloon_learning_environment.agents.networks\n{also}{PAR} = {v}\n')
    return p

  for x in cases:
    v = [str(n) for n in rng.sample(range(1, 200), 5)]
    kw = {}
    own = []
    agent = 'random' if x['own'] == 'none' else 'mlp' if x['own'] == 'default' else rng.choice(['mlp', 'random', 'dqn'])
    if x['own'] == 'default':
      own = ['256']   # as published
    elif x['own'] == 'explicit':
      own = [v[4]]
      kw['agent_gin_file'] = file(v[4])
    extra, binds = v[:x['extra']], v[2:2 + x['binds']]
    if extra or rng.random() < 0.5:
      kw['additional_gin_files'] = [file(e) for e in extra]
    if binds or rng.random() < 0.5:
      kw['gin_bindings'] = [f'{PAR} = {b}' for b in binds]
    gin.clear_config()
    if rng.random() < 0.3:
      bad = rng.choice(['NoSuchThing.units = 3', 'networks.MLPNetwork.no_such_parameter = 3', 'networks.MLPNetwork.hidden_units'])
      _, how = kit.call(run_helpers.bind_gin_variables, agent, **dict(kw, gin_bindings=[bad] + kw.get('gin_bindings', [])))
      out.append(dict(op='unbindable', bad=bad, ok=how))
      gin.clear_config()
    _, how = kit.call(run_helpers.bind_gin_variables, agent, **kw)
    try:
      got = str(gin.query_parameter(PAR))
    except ValueError:
      got = 'unbound'
    out.append(dict(op='bind', ok=how, own=own, extra=extra, binds=binds, out=got, agent=agent))
  shutil.rmtree(root)
  return out


def fake_perciatelli(rng, path):
  """A frozen graph with the names of the published one and random weights."""
  import numpy as np, tensorflow as tf
  nrng = np.random.default_rng(rng.randrange(1 << 30))
  g = tf.Graph()
  w = {}
  with g.as_default():
    obs = tf.compat.v1.placeholder(tf.float32, (1, 1099), name='observation')
    W = nrng.normal(size=(1099, 3)).astype(np.float32)
    q = tf.matmul(obs, tf.constant(W), name='q_values')
    tf.argmax(q, axis=1, name='sleepwalk_action')
    sizes = [1099] + [600] * 7 + [153]
    for i in range(8):
      n = 'Online/fully_connected' + (f'_{i}' if i else '')
      w[f'Dense_{i}'] = dict(kernel=nrng.normal(size=(sizes[i], sizes[i + 1])).astype(np.float32),
                             bias=nrng.normal(size=(sizes[i + 1],)).astype(np.float32))
      for tf_name, k in (('weights', 'kernel'), ('biases', 'bias')):
        t = tf.constant(w[f'Dense_{i}'][k], name=f'{n}/{tf_name}')
        tf.identity(t, name=f'{n}/{tf_name}/read')
  with open(path, 'wb') as f:
    f.write(g.as_graph_def().SerializeToString())
  return W, w


def leaf(params, layer, kind):
  p = params
  while 'params' in p:
    p = p['params']
  return p[layer][kind]


def config_of(a):
  import gin
  q = gin.query_parameter
  n = len([k for k in (a.online_params['params'] if 'params' in a.online_params else a.online_params)])
  cfg = dict(gamma=a.gamma, update_horizon=a.update_horizon, min_replay_history=a.min_replay_history,
             update_period=a.update_period, target_update_period=a.target_update_period,
             layers=n, hidden=leaf(a.online_params, 'Dense_0', 'kernel').shape[1],
             lr=q('dopamine.jax.agents.dqn.dqn_agent.create_optimizer.learning_rate'),
             eps=q('dopamine.jax.agents.dqn.dqn_agent.create_optimizer.eps'),
             batch=a._replay._replay_batch_size() if hasattr(a._replay, '_replay_batch_size') else a._replay._batch_size,
             epsilon_train=a.epsilon_train, epsilon_eval=a.epsilon_eval,
             outputs=leaf(a.online_params, f'Dense_{n - 1}', 'bias').shape[0])
  return {k: kit.flt(float(v)) for k, v in cfg.items()}


def agents(c, names):
  import gin, numpy as np
  from balloon_learning_environment.utils import run_helpers
  from balloon_learning_environment.agents import agent_registry, perciatelli44, dqn_agent, quantile_agent
  rng, out = c.rng, []
  model = os.path.join(kit.workdir(), 'perciatelli.pb')
  W, weights = fake_perciatelli(rng, model)
  shape = (1099,)
  for name in names:
    gin.clear_config()
    cap = [f'{k}.replay_capacity = 600' for k in ('OutOfGraphReplayBuffer', 'OutOfGraphPrioritizedReplayBuffer')]
    binds = [f'load_perciatelli44.path = "{model}"']
    if name in ('dqn', 'quantile', 'finetune_perciatelli'):
      binds += cap[:1] if name == 'dqn' else cap[1:]
    run_helpers.bind_gin_variables(name, gin_bindings=binds)
    na = 3 if name != 'random' else rng.choice([1, 2, 3, 5])
    a, how = kit.call(run_helpers.create_agent, name, na, shape)
    e = dict(op='agent', name=name, how=how, cls=type(a).__name__ if how == 'ok' else '', na=na, acts=[])
    if how != 'ok':
      e['why'] = kit.call.last[-400:]
      out.append(e)
      continue
    gets = lambda: rng_obs(rng)
    a.set_mode('eval')
    e['acts'] = [int(a.begin_episode(gets()))] + [int(a.step(0.5, gets())) for _ in range(4)]
    if name in ('dqn', 'quantile', 'finetune_perciatelli'):
      cfg = config_of(a)
      cfg['checkpoint_duration'] = kit.flt(float(gin.query_parameter(
          ('balloon_learning_environment.agents.dqn_agent.DQNAgent' if name == 'dqn' else
           'balloon_learning_environment.agents.quantile_agent.QuantileAgent') + '.checkpoint_duration')))
      if name != 'dqn':
        cfg['atoms'] = kit.flt(float(gin.query_parameter('JaxQuantileAgent.num_atoms')))
        cfg['explore'] = kit.flt(float(gin.query_parameter('MarcoPoloExploration.exploratory_episode_probability')))
        cfg['reload'] = kit.flt(float(leaf(a.online_params, 'Dense_0', 'kernel').shape == weights['Dense_0']['kernel'].shape and
                                      bool(np.array_equal(leaf(a.online_params, 'Dense_0', 'kernel'), weights['Dense_0']['kernel']))))
      e.update(cfg=cfg, keys=sorted(cfg))
    out.append(e)
    if name == 'finetune_perciatelli':
      w, how = kit.call(type(a).load_perciatelli_weights)
      same = [bool(np.array_equal(leaf(a.online_params, d, k), v)) for d, kv in weights.items() for k, v in kv.items()]
      target = all(bool(np.array_equal(leaf(a.target_network_params, d, k), v))
                   for d, kv in weights.items() for k, v in kv.items())
      out.append(dict(op='weights', how=how, same=same, target=target))
    if name == 'perciatelli44':
      for i in range(c.n(20, 200)):
        ob = rng_obs(rng)
        form = rng.choice([ob, ob.reshape(1, 1099), ob.astype(np.float64)])
        act, how = kit.call(a.begin_episode, form) if i % 5 == 0 else kit.call(a.step, rng.random(), form)
        out.append(dict(op='frozen', how=how, a=kit.enc(act), q=[kit.flt(float(v)) for v in (ob @ W)]))
      for args in ((2, (1099,)), (4, (1099,)), (3, (1098,)), (3, (1099, 1)), (3, ())):
        out.append(dict(op='refuse', how=kit.call(perciatelli44.Perciatelli44, *args)[1], args=str(args)))
    del a
  for name in agent_registry.REGISTRY:
    if name == 'acme_eval_agent':
      continue
    f, how = kit.call(run_helpers.get_agent_gin_file, name, None)
    x, _ = kit.call(run_helpers.get_agent_gin_file, name, 'some.gin')
    out.append(dict(op='gin', name=name, file=os.path.basename(str(f)) if how == 'ok' else how, explicit=kit.enc(x)))
    if f is not None and how == 'ok':   # the file is there, below the package's parent
      out[-1]['file'] = os.path.basename(f) if os.path.exists(os.path.join(kit.REPO, f)) else 'missing'
  for bad in ('', 'Random', 'mlp ', 'none', 'perciatelli', 'acme'):
    for f in (agent_registry.agent_constructor, agent_registry.get_default_gin_config, run_helpers.get_wind_field_factory,
              lambda n: run_helpers.get_agent_gin_file(n, None), lambda n: run_helpers.create_agent(n, 3, (4,)),
              lambda n: run_helpers.bind_gin_variables(n)):
      gin.clear_config()
      out.append(dict(op='unknown', name=bad, how=kit.call(f, bad)[1]))
  gin.clear_config()
  return out


def rng_obs(rng):
  import numpy as np
  return np.random.default_rng(rng.randrange(1 << 30)).random(1099).astype(np.float32)


def names_of(c):
  """Wind fields, collectors, registration, gym.make."""
  import gym
  import winddrv
  winddrv.lib()
  from balloon_learning_environment import train_lib
  from balloon_learning_environment.utils import run_helpers
  from balloon_learning_environment.env import gym as ble_gym
  from balloon_learning_environment.env import wind_field, features
  from balloon_learning_environment.env.rendering import renderer as rl
  rng, out = c.rng, []
  for n in ('simple', 'generative'):
    f, how = kit.call(run_helpers.get_wind_field_factory, n)
    w, how = kit.call(f) if how == 'ok' else (None, how)
    w2 = kit.call(f)[0] if how == 'ok' else None
    cls = type(w).__name__
    if cls == 'GridBasedWindField':   # built around the generative sampler
      sampler = [v for v in vars(w).values() if type(v).__name__.endswith('Sampler')]
      cls = 'GenerativeWindField' if [type(v).__name__ for v in sampler] == ['GenerativeWindFieldSampler'] else cls
    out.append(dict(op='wind', name=n, how=how, cls=cls, fresh=w is not w2))
  names = ['console', 'pickle', 'tensorboard', 'unknown', 'Console', '']
  for k in range(c.n(60, 400)):
    q = [rng.choice(names) for _ in range(rng.randrange(5))]
    arg = None if not q and rng.random() < 0.5 else rng.choice([list, tuple, iter])(q)
    r, how = kit.call(train_lib.get_collector_data, *([] if arg is None and rng.random() < 0.5 else [arg]))
    out.append(dict(op='collectors', names=q, how=how, out=[x.__name__ for x in r] if how == 'ok' else []))
  from gym.envs import registration
  for _ in range(3):
    with warnings.catch_warnings(record=True) as ws:
      warnings.simplefilter('always')
      logs = []
      orig = gym.logger.warn
      gym.logger.warn = lambda *a, **k: logs.append(a)
      try:
        _, how = kit.call(ble_gym.register_env)
      finally:
        gym.logger.warn = orig
    ids = list(registration.registry.keys() if hasattr(registration.registry, 'keys') else registration.registry.env_specs)
    out.append(dict(op='register', how=how, count=sum('BalloonLearningEnvironment' in i for i in ids),
                    warnings=sum('verrid' in str(w) for w in [x.message for x in ws] + logs)))

  class Shown(rl.Renderer):
    def __init__(self): self.n = 0
    def reset(self): self.n += 1
    def step(self, state): self.n += 1
    def render(self, mode, *a, **k): return 'shown'
    @property
    def render_modes(self): return ['human']

  for ident in ('BalloonLearningEnvironment-v0', 'balloon_learning_environment:BalloonLearningEnvironment-v0'):
    for kind in ('static', 'own'):
      made = []

      def factory():
        made.append(wind_field.SimpleStaticWindField())
        return made[-1]
      r = Shown()
      env, how = kit.call(gym.make, ident, wind_field_factory=factory, renderer=r, seed=rng.randrange(1000))
      e = dict(op='make', how=how, id=ident)
      if how == 'ok':
        u = env.unwrapped
        def play():
          env.reset(seed=3) if rng.random() < 0.5 else env.reset()
          for _ in range(3):
            o, rew, t, info = env.step(rng.randrange(3))
          return env.observation_space.shape == o.shape and 0 <= rew <= 1 and not t
        ran, h = kit.call(play)
        e.update(actions=int(env.action_space.n), shape=list(env.observation_space.shape), want=[1099],
                 cls=type(u).__name__, wind=bool(made), rendered=r.n > 0, ran=bool(ran) and h == 'ok')
      else:
        e['why'] = kit.call.last[-300:]
      out.append(e)
  return out


def run(c):
  rng = c.rng
  r = c.model('MC_Registry', CFG, name='names')
  cases = r.lines('INIT')
  s = [x for x in cases if x['op'] == 'search']
  b = [x for x in cases if x['op'] == 'bind']
  todo = [dict(x, name=rng.choice(['model.bin', 'a b', 'perciatelli44.pb']), size=rng.choice([0, 1, 30]))
          for x in s for _ in range(c.n(1, 4))]
  rng.shuffle(todo)
  ev = search(c, todo)
  b = b * c.n(1, 4)
  rng.shuffle(b)
  binds = bindings(c, b)
  names = ['random', 'mlp', 'dqn', 'perciatelli44', 'quantile', 'finetune_perciatelli', 'station_seeker', 'random_walk']
  ag = agents(c, names)
  rest = names_of(c)
  c.judge('T_Registry', [ev, binds, ag, rest], chunks=2)
  c.cov['executions'] = dict(searches=len(ev), bindings=len(binds), agents_and_names=len(ag) + len(rest))
  c.cov['exhausted'] = 'every combination of the three model-file places, every count of parameter files and bindings up to 2'
