"""C35: renderers."""
import copy, hashlib, os, tempfile
import kit, simdrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of an environment with a renderer (spec/Render.tla); TLC checks it and enumerates histories of '
             'resets, steps and render calls (MC_Render), each is replayed with a recording renderer, the matplotlib '
             'renderer and no renderer beside a twin environment; calls, states, results and the plotted lines are '
             'judged by TLC (T_Render)')
NOTE = 'Frames are drawn with the Agg backend; what is read off the axes are the plotted lines, not pixels.'
CFG = '''SPECIFICATION Spec
CONSTANTS
  MaxEps = {e}
  MaxSteps = {s}
  MaxRenders = {r}
INVARIANTS CurrentFlight EmitInit
PROPERTIES RenderIsPure
VIEW View
ACTION_CONSTRAINT EmitEdge
CHECK_DEADLOCK FALSE
'''


def dig(state):
  b = state.balloon_state
  return hashlib.md5(repr((simdrv.rec_state(b), str(b.date_time), kit.flt(b.battery_soc), b.last_command.name,
                           kit.flt(b.mols_air), kit.flt(state.atmosphere.at_pressure(b.pressure).height.kilometers),
                           )).encode()).hexdigest()[:12]


def at(state):
  """Position, charge and time as the plots show them."""
  import matplotlib.dates as md
  b = state.balloon_state
  h = state.atmosphere.at_pressure(b.pressure).height
  return [kit.flt(v) for v in (b.x.kilometers, b.y.kilometers, h.kilometers,
                               md.date2num(b.date_time), b.battery_soc * 100.0)]


def recorder(rng, calls, modes):
  import numpy as np, random
  from balloon_learning_environment.env.rendering import renderer

  class Rec(renderer.Renderer):
    def reset(self):
      random.random(); np.random.rand(3)   # its own business
      calls.append(dict(c='reset'))
    def step(self, state):
      random.random(); np.random.rand(3)
      calls.append(dict(c='step', s=dig(state)))
    def render(self, mode, summary_writer=None, iteration=None):
      calls.append(dict(c='render', mode=mode))
      if mode not in modes:
        raise ValueError('mode')
      self.token = np.zeros((2, 2, 3)) if mode == 'rgb_array' else 'text' if mode == 'ansi' else None
      return self.token
    @property
    def render_modes(self):
      return modes
  return Rec()


def dots(image):
  return hashlib.sha256(image.tobytes()).hexdigest()


class Pair:
  """An environment with the given kind of renderer and its twin without."""

  def __init__(self, rng, kind):
    S = simdrv.sim()
    self.rng, self.kind, self.calls, self.log = rng, kind, [], []
    self.modes, self.given = [], []
    if kind == 'rec':
      self.modes = rng.sample(['human', 'rgb_array', 'ansi', 'tensorboard'], rng.randrange(1, 5))
      r = recorder(rng, self.calls, self.modes)
    elif kind == 'mpl':
      from balloon_learning_environment.env.rendering import matplotlib_renderer
      r = matplotlib_renderer.MatplotlibRenderer()
      import matplotlib.pyplot as plt
      self.fig = plt.figure(plt.get_fignums()[-1])
      self.modes = ['human', 'rgb_array', 'tensorboard']
    else:
      r = None
    self.renderer = r
    seed = rng.randrange(2**31)
    wk = rng.choice(['analytic', 'static'])
    fac = self._winds(wk)
    kw = dict(feature_constructor_factory=simdrv.light_features(), seed=seed)
    if r is None:
      self.env = S.balloon_env.BalloonEnv(wind_field_factory=lambda: fac[0], **kw)
    else:
      self.env = S.balloon_env.BalloonEnv(wind_field_factory=lambda: fac[0], renderer=r, **kw)
    self.twin = S.balloon_env.BalloonEnv(wind_field_factory=lambda: fac[1], **kw)
    declared = self.env.metadata.get('render.modes', []) if r is not None else []
    self._log(dict(op='new', modes=self.modes, declared=list(declared), renderer=r is not None), '', '')

  def _winds(self, kind):
    st = self.rng.getstate()
    a, _ = simdrv.make_windfield(kind, self.rng)
    self.rng.setstate(st)
    b, _ = simdrv.make_windfield(kind, self.rng)
    return a, b

  def _log(self, e, ret, tret):
    st = self.env.get_simulator_state()
    e.update(rec=self.kind == 'rec', calls=list(self.calls), now=dig(st), twin=dig(self.twin.get_simulator_state()),
             ret=ret, tret=tret, at=at(st))
    self.calls.clear()
    self.log.append(e)

  @staticmethod
  def _ret(r):
    import numpy as np
    if isinstance(r, tuple):
      return ';'.join(Pair._ret(x) for x in r)
    if isinstance(r, np.ndarray):
      return hashlib.md5(np.ascontiguousarray(r).tobytes()).hexdigest()[:10]
    return repr(r)

  def reset(self):
    kw = {}
    if self.rng.random() < 0.4:
      kw['seed'] = self.rng.randrange(2**31)
    if self.rng.random() < 0.4:
      kw['return_info'] = True
    a, ha = kit.call(self.env.reset, **kw)
    b, hb = kit.call(self.twin.reset, **kw)
    self._log(dict(op='reset'), ha + self._ret(a), hb + self._ret(b))

  def step(self):
    k = self.rng.randrange(3)
    a, ha = kit.call(self.env.step, k)
    b, hb = kit.call(self.twin.step, k)
    self._log(dict(op='step', a=k), ha + self._ret(a), hb + self._ret(b))

  def render(self, mode):
    import matplotlib.pyplot as plt
    if mode == 'human' and self.rng.random() < 0.5:
      out, how = kit.call(self.env.render)   # the default
    else:
      out, how = kit.call(self.env.render, mode) if self.rng.random() < 0.5 else kit.call(self.env.render, mode=mode)
    if how != 'ok':
      r = how
    elif self.kind == 'rec':
      r = 'renderer' if out is getattr(self.renderer, 'token', 0) else 'other'
    elif self.kind == 'mpl':
      r = 'renderer'
    else:
      r = 'none' if out is None else 'other'
    self._log(dict(op='render', mode=mode, out=r, why=kit.call.last[-300:] if how != 'ok' else ''), '', '')
    if self.kind == 'mpl' and mode in self.modes:
      kept = all(dots(was) == d for was, d in self.given)
      if how == 'ok' and hasattr(out, 'tobytes'):
        self.given = self.given[-1:] + [(out, dots(out))]
      self.log.append(dict(op='frame', how=how, mode=mode, kept=kept, **self.frame(out)))

  def frame(self, out):
    import numpy as np
    sp = self.renderer   # the figure it draws on
    fig = self.fig
    axes = fig.axes
    l3 = [[[kit.flt(float(v)) for v in p] for p in zip(*ln.get_data_3d())] for ln in axes[0].lines]
    num = lambda ln: [[kit.flt(float(v)) for v in p] for p in zip(ln.get_xdata(orig=False), ln.get_ydata(orig=False))]
    l2 = [num(ln) for ax in axes[1:] for ln in ax.lines]
    marks = [[kit.flt(float(v)) for v in p] for ax in axes[1:] for co in ax.collections for p in np.asarray(co.get_offsets())]
    return dict(path=True, lines3=l3, lines2=l2, power=l2, marks=marks,
                shape=list(out.shape) if isinstance(out, np.ndarray) else [] if out is None else ['other'],
                dtype=str(out.dtype) if isinstance(out, np.ndarray) else '',
                ink=bool(out.min() < 128 and out.max() > 200) if isinstance(out, np.ndarray) else False,
                canvas=list(fig.canvas.get_width_height()[::-1]))

  def summary(self):
    """Frames for tensorboard, straight from the renderer."""
    import numpy as np
    got = []

    class Writer:
      def image(self, tag, image, step):
        got.append((np.array(image), step))
      def flush(self): pass
    w = Writer() if self.rng.random() < 0.7 else None
    it = self.rng.choice([None, 0, 7])
    frame, _ = kit.call(self.renderer.render, 'rgb_array')
    out, how = kit.call(self.renderer.render, 'tensorboard', w, it)
    self.log.append(dict(op='summary', how=how, out='none' if out is None else 'other', writer=w is not None,
                         it=-1 if it is None else it, wrote=[int(s) for _, s in got],
                         same=bool(got and np.array_equal(got[0][0], frame))))

  def shown(self, n):
    """A whole day or two shown to the renderer, without flying it."""
    import copy, datetime as dt, types
    S = simdrv.sim()
    st = self.env.get_simulator_state()
    for i in range(n):
      b = copy.copy(st.balloon_state)
      b.x = S.units.Distance(km=self.rng.uniform(-400, 400))
      b.y = S.units.Distance(km=self.rng.uniform(-400, 400))
      b.pressure = self.rng.uniform(5500, 12000)
      b.date_time = b.date_time + dt.timedelta(minutes=3 * i)
      b.battery_charge = b.battery_capacity * self.rng.random()
      s = type(st)(b, st.wind_field, st.atmosphere)
      _, how = kit.call(self.renderer.step, s)
      self.log.append(dict(op='step', rec=False, calls=[], now=how, twin='ok', ret='', tret='', at=at(s)))

  def close(self):
    import matplotlib.pyplot as plt
    plt.close(self.fig)


def train(c):
  """The training program saves a picture of the last flight."""
  import matplotlib.image, gin, numpy as np
  from absl import flags
  from balloon_learning_environment import train as prog
  from balloon_learning_environment import train_lib
  root = tempfile.mkdtemp(prefix='paint_', dir=kit.workdir())
  shots = []
  gin.clear_config()
  F = flags.FLAGS
  F.unparse_flags()
  F(['train', f'--base_dir={root}', '--agent=random', '--wind_field=simple', '--renderer=matplotlib',
     '--num_iterations=1', '--episodes_per_iteration=1', f'--max_episode_length={c.rng.randrange(2, 6)}',
     '--render_period=1000'])
  orig = train_lib.run_training_loop

  def loop(base_dir, env, *a, **k):
    out = orig(base_dir, env, *a, **k)
    shots.append(env.render(mode='rgb_array'))
    return out
  train_lib.run_training_loop = loop
  try:
    _, how = kit.call(prog.main, None)
  finally:
    train_lib.run_training_loop = orig
    gin.clear_config()
  p = os.path.join(root, 'balloon_path.png')
  ok = False
  if how == 'ok' and os.path.exists(p) and shots:
    img = (matplotlib.image.imread(p)[..., :3] * 255).round().astype(int)
    ok = img.shape == shots[0].shape and float((abs(img - shots[0].astype(int)) > 2).mean()) < 0.001
  return [dict(op='train', how=how, saved=ok, why=kit.call.last[-300:] if how != 'ok' else '')]


def run(c):
  os.environ['MPLBACKEND'] = 'Agg'
  import matplotlib
  matplotlib.use('Agg')
  rng = c.rng
  g = kit.Graph(c.model('MC_Render', CFG.format(e=c.n(2, 3), s=c.n(3, 6), r=c.n(1, 2)), workers=1))
  tours = [p for _, p in g.tour(rng, max_len=60)]
  c.cov['model'] = dict(nodes=len(g.nodes), edges=g.n_edges, paths=len(tours))
  traces = []
  players = []

  def play(kind, path):
    p = Pair(rng, kind)
    traces.append(p.log)
    for a, _ in path:
      yield
      if a['op'] == 'render':
        p.render(a['mode'])
      elif a['op'] == 'reset':
        p.reset()
      else:
        p.step()
    if kind == 'mpl':
      p.summary()
      p.render('rgb_array')
      p.close()

  for kind in ('rec', 'none', 'mpl'):
    for k in range(c.n(dict(rec=2, none=1, mpl=1)[kind], dict(rec=12, none=3, mpl=2)[kind])):
      players += [play(kind, path) for path in tours]
  kit.side_by_side(rng, players, 2)
  # Long flights, and flights that end.
  for _ in range(c.n(2, 12)):
    p = Pair(rng, 'mpl')
    for _ in range(rng.randrange(20, c.n(60, 300))):
      p.step()
    p.render('rgb_array')
    p.reset()
    p.render('human')
    p.step()
    p.render('rgb_array')
    p.close()
    traces.append(p.log)
  for n in [rng.randrange(900, 1000)] + [rng.randrange(1, 4000) for _ in range(c.n(1, 6))]:
    p = Pair(rng, 'mpl')
    p.shown(n)
    p.render('rgb_array')
    p.reset()
    p.render('rgb_array')
    p.close()
    traces.append(p.log)
  traces.append(train(c))
  c.judge('T_Render', traces, chunks=4)
  c.cov['executions'] = dict(histories=len(traces), events=sum(map(len, traces)), frames=sum(e['op'] == 'frame' for t in traces for e in t))
