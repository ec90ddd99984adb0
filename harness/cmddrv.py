"""Runs the command-line programs in process and records what they do."""
import json, os, shutil, sys, tempfile
import kit, evaldrv, winddrv


class Bench:
  """Both programs, with probes where agents, environments and collectors are looked up."""

  def __init__(self, rng):
    kit.setup_repo()
    winddrv.lib()
    import gin, gym, numpy as np
    from absl import flags
    self.rng, self.gin, self.gym, self.np, self.flags = rng, gin, gym, np, flags.FLAGS
    self.progs, self.own_flags = {}, {}
    base = set(self.flags)
    for name in ('train', 'eval'):
      self._load(name, base)
    self.log = None
    self._probes()

  def _load(self, name, base):
    """Each program has its own flags; in one process they are swapped."""
    F = self.flags
    if name == 'train':
      from balloon_learning_environment import train as prog
    else:
      from balloon_learning_environment.eval import eval as prog
    new = [n for n in F if n not in base]
    self.progs[name] = prog
    self.own_flags[name] = {n: F[n] for n in new}
    for n in new:
      delattr(F, n)

  def _probes(self):
    from balloon_learning_environment.agents import agent as base_agent, agent_registry
    from balloon_learning_environment.env import balloon_env, wind_field, grid_based_wind_field
    from balloon_learning_environment.env.rendering import matplotlib_renderer
    from balloon_learning_environment.metrics import collector, collector_dispatcher
    from balloon_learning_environment.utils import units
    B, np, gym = self, self.np, self.gym
    self.root = tempfile.mkdtemp(prefix='cmd_', dir=kit.workdir())

    def rel(path):
      p = os.path.relpath(path, B.base)
      return p

    class Probe(base_agent.Agent):

      def __init__(self, name, num_actions, observation_shape, label):
        super().__init__(num_actions, observation_shape)
        self.mark = -1
        B.log['agents'].append(name)
        B.log.update(na=kit.enc(num_actions), shape=[kit.enc(x) for x in observation_shape], label=label, mode='none')

      def begin_episode(self, observation):
        B.log['mark'] = self.mark
        return B.rng.randrange(3)

      def step(self, reward, observation):
        return B.rng.randrange(3)

      def end_episode(self, reward, terminal=True):
        pass

      def set_mode(self, mode):
        B.log['mode'] = base_agent.AgentMode(mode).name

      def save_checkpoint(self, checkpoint_dir, iteration_number):
        os.makedirs(checkpoint_dir, exist_ok=True)
        open(os.path.join(checkpoint_dir, f'ckpt_{iteration_number}'), 'w').close()
        B.log['saved'].append(kit.enc(iteration_number))
        B.log['saveddirs'].append(rel(checkpoint_dir))

      def reload_latest_checkpoint(self, checkpoint_dir):
        its = [int(f[5:]) for f in os.listdir(checkpoint_dir)] if os.path.isdir(checkpoint_dir) else []
        got = max(its, default=-1)
        B.log['reload'] = [rel(checkpoint_dir), got]
        return got

      def load_checkpoint(self, checkpoint_dir, iteration_number):
        if not os.path.exists(os.path.join(checkpoint_dir, f'ckpt_{iteration_number}')):
          raise FileNotFoundError(checkpoint_dir)
        self.mark = int(iteration_number)
        B.log['loads'].append([rel(checkpoint_dir), self.mark])

    @self.gin.configurable('cmd_probe', module='verif')
    def labelled(label='class'):
      return label

    def entry(name, gin_file):
      return (lambda num_actions, observation_shape=None, **k: Probe(name, num_actions, observation_shape, labelled()), gin_file)

    self.files = {}
    for label in ('file', 'other'):
      p = self.files[label] = os.path.join(self.root, label + '.gin')
      with open(p, 'w') as f:
        f.write(f'cmd_probe.label = "{label}"\n')
    agent_registry.REGISTRY.update(dqn=entry('dqn', self.files['file']), a=entry('a', None), a_b=entry('a_b', self.files['file']))
    self.own = dict(dqn='file', a='class', a_b='file')

    class Env(gym.Env):
      """Episodes of scripted length; the simulator state does not matter here."""
      ident = 'BalloonLearningEnvironment-v0'

      def __init__(self, wind_field_factory=None, renderer=None, **unused):
        B.log['envs'].append(self.ident)
        B.bind_decoder()
        wf, how = kit.call(wind_field_factory)
        B.log['winds'].append('simple' if isinstance(wf, wind_field.SimpleStaticWindField) else
                              'generative' if isinstance(wf, grid_based_wind_field.GridBasedWindField) else f'{how}:{type(wf).__name__}')
        self.renderer = renderer
        B.log['renderers'].append('none' if renderer is None else
                                  'matplotlib' if isinstance(renderer, matplotlib_renderer.MatplotlibRenderer) else type(renderer).__name__)
        self.action_space = gym.spaces.Discrete(3)
        self.observation_space = gym.spaces.Box(-1, 1, (2,), np.float32)
        self.radius = units.Distance(km=50)
        self.state = B.state
        self.last = 0

      def seed(self, seed=None):
        B.log['seeds'].append(kit.enc(seed))

      def reset(self, **unused):
        self.last = B.length()
        B.log['lens'].append(0)
        B.log['terms'].append(False)
        return np.zeros(2, np.float32)

      def step(self, action):
        B.log['lens'][-1] += 1
        t = B.log['lens'][-1] == self.last
        B.log['terms'][-1] = bool(t)
        return np.zeros(2, np.float32), 0.5, bool(t), {}

      def render(self, mode='human', **k):
        if mode == 'human':
          B.log['renders'] += 1
        if self.renderer is not None and mode == 'rgb_array':
          B.image = np.asarray(np.random.default_rng(B.rng.randrange(10**9)).integers(0, 256, (8, 9, 3)), np.uint8)
          return B.image
        return None

      def get_simulator_state(self):
        import types
        return types.SimpleNamespace(balloon_state=self.state)

    class Other(Env):
      ident = 'VerifOther-v0'

    balloon_env.BalloonEnv = Env
    gym.register(id='VerifOther-v0', entry_point=Other)
    self.state = evaldrv.stub_state(self.rng)

    def rec(name):
      class Rec(collector.Collector):

        def __init__(self, base_dir, num_actions, current_episode):
          super().__init__(base_dir, num_actions, current_episode)
          B.log['collectors'].append(name)
          B.log['collectdirs'].append(rel(base_dir))

        def get_name(self):
          return name

        def pre_training(self):
          pass

        def begin_episode(self):
          pass

        def step(self, statistics):
          pass

        def end_episode(self, statistics):
          pass

        def end_training(self):
          pass
      return Rec
    for n in ('console', 'pickle', 'tensorboard', 'probe1', 'probe2'):
      collector_dispatcher.AVAILABLE_COLLECTORS[n] = rec(n)

  def bind_decoder(self):
    with self.gin.unlock_config():
      self.gin.bind_parameter('load_offlineskies22.path', os.path.join(kit.workdir(), 'decoder.msgpack'))

  def fresh(self):
    self.base = tempfile.mkdtemp(prefix='base_', dir=self.root)
    return dict(op='new')

  def tree(self):
    out = {}
    for d, _, fs in os.walk(self.base):
      for f in fs:
        p = os.path.join(d, f)
        s = os.stat(p)
        out[os.path.relpath(p, self.base)] = (s.st_mtime_ns, s.st_size)
    return out

  def run(self, prog, f, op=None, argv=None, many=False, never=False):
    """One command; f are the flags given, with paths relative to the base directory."""
    rng, F = self.rng, self.flags
    self.log = L = dict(op=op or prog, f=dict(f), agents=[], envs=[], winds=[], renderers=[], na=0, shape=[], label='', mode='',
                        saved=[], saveddirs=[], reload=['', -1], loads=[], lens=[], terms=[], renders=0, collectors=[], collectdirs=[],
                        seeds=[], mark=-1, wrote=[], own=self.own.get(f.get('agent', 'dqn'), 'class'))
    self.image = None
    n = [0]

    def length():
      n[0] += 1
      if never and n[0] in (1, 7):
        return -1
      return 1 if many else rng.choice([1, 2, 3, 5, 11, 12, 21, 35])
    self.length = length
    args = [prog]
    for k, v in f.items():
      if k in ('base_dir', 'output_dir'):
        v = self.base
      elif k == 'checkpoint_dir':
        v = os.path.join(self.base, v)
      elif k == 'agent_gin_file':
        v = self.files[v]
      elif k == 'gin_bindings':
        for x in rng.choice([[], ['first'], ['first', 'second']]):
          args.append(f'--gin_bindings=cmd_probe.label="{x}"')
        v = f'cmd_probe.label="{v}"'
      elif k == 'collectors':
        args += [f'--collectors={x}' for x in v]
        continue
      args.append(f'--{k}={v}')
    tail = args[1:]
    if 'gin_bindings' not in f and 'collectors' not in f:
      rng.shuffle(tail)
    before = self.tree()
    self.gin.clear_config()
    self.np.random.seed(rng.randrange(2**31))
    for n_, fl in self.own_flags[prog].items():
      fl.unparse()
      F[n_] = fl

    def main():
      rest = F([prog] + tail + (argv or []))
      return self.progs[prog].main(rest)
    try:
      _, how = kit.call(main)
    finally:
      for n_ in self.own_flags[prog]:
        delattr(F, n_)
      self.gin.clear_config()
    L['how'] = how
    if how != 'ok':
      L['why'] = kit.call.last[-400:]
    after = self.tree()
    changed = sorted(p for p in after if before.get(p) != after[p])
    if prog == 'train' and L['op'] == 'train':
      L['homes'] = sorted({'/'.join(p.split('/')[:2]) for p in changed if p != 'balloon_path.png'})
      L['picture'] = self._picture('balloon_path.png' in changed)
    else:
      L['wrote'] = changed
    if L['op'] == 'eval':
      from balloon_learning_environment.eval import suites
      s, _ = kit.call(suites.get_eval_suite, f.get('suite', 'big_eval'))
      L['suite'], L['limit'] = [kit.enc(x) for x in s.seeds], kit.enc(s.max_episode_length)
      L['results'], L['finals'], L['lines'] = [], [], False
      if len(changed) == 1:
        text = open(os.path.join(self.base, changed[0])).read()
        data, _ = kit.call(json.loads, text)
        L['lines'] = '\n' in text.strip()
        L['results'] = [d['seed'] for d in data or []]
        L['finals'] = [d['final_timestep'] for d in data or []]
    return L

  def _picture(self, written):
    import matplotlib.image
    if not written:
      return 'none'
    if self.image is None:
      return 'unasked'
    img = matplotlib.image.imread(os.path.join(self.base, 'balloon_path.png'))
    img = (img[..., :3] * 255).round().astype(int)
    return 'right' if img.shape == self.image.shape and (img == self.image).all() else 'wrong'
