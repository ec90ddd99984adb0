"""Shared machinery: run TLC, encode recorded events, report verdicts.

Nothing in here knows about a property; see the c*.py modules for those.
"""
import atexit, enum, hashlib, json, math, os, random, re, shutil, subprocess
import sys, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
REPO = os.environ.get('VERIF_REPO', '/repo')
TLA = '/opt/veriftools/tla'
OUT = os.path.join(VERIF, 'out')
NCPU = min(8, os.cpu_count() or 1)

_work = None


def workdir():
  global _work
  if _work is None:
    _work = tempfile.mkdtemp(prefix='verif_')
    atexit.register(lambda d=_work, p=os.getpid():
                    shutil.rmtree(d, ignore_errors=True)
                    if os.getpid() == p else None)
  return _work


def setup_repo():
  """Makes the repository importable, quietly, without leaving files in it."""
  os.environ.update(PYTHONDONTWRITEBYTECODE='1', JAX_PLATFORMS='cpu',
                    CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='3',
                    MPLBACKEND='Agg', TF_ENABLE_ONEDNN_OPTS='0')
  os.environ.setdefault('MPLCONFIGDIR', os.path.join(workdir(), 'mpl'))
  sys.dont_write_bytecode = True
  import warnings
  warnings.simplefilter('ignore')
  warnings.showwarning = lambda *a, **k: None
  sys.path.insert(0, REPO)
  import balloon_learning_environment as b
  assert b.__file__.startswith(REPO + '/'), b.__file__
  import logging
  logging.disable(logging.CRITICAL)
  try:
    from absl import logging as al
    al.set_verbosity(al.FATAL)
    al.set_stderrthreshold('fatal')
  except Exception:
    pass


# ------------------------------------------------------------------ encoding
def enc(x):
  """Encodes a recorded value for TLC: floats become strings, ints stay ints."""
  import numpy as np
  if x is None:
    return 'None'
  if isinstance(x, (bool, np.bool_)):
    return bool(x)
  if isinstance(x, enum.Enum):
    return x.name
  if isinstance(x, (int, np.integer)):
    x = int(x)
    return x if abs(x) < 2**31 - 1 else repr(float(x))
  if isinstance(x, (float, np.floating)):
    return repr(float(x))
  if isinstance(x, str):
    return x
  if isinstance(x, dict):
    return {str(k): enc(v) for k, v in x.items()}
  if isinstance(x, (list, tuple)):
    return [enc(v) for v in x]
  if hasattr(x, 'shape') and hasattr(x, 'tolist'):
    return enc(np.asarray(x, dtype=np.float64).tolist())
  try:
    return repr(float(x))
  except Exception:
    return '?' + type(x).__name__


def flt(x):
  """Encodes as a float string whatever the numeric type; never raises."""
  try:
    return repr(float(x))
  except Exception:
    return 'nan?' + type(x).__name__


class Refused(Exception):
  pass


def call(fn, *a, **k):
  """(result, 'ok') or (None, exception class name). Exceptions are data."""
  try:
    return fn(*a, **k), 'ok'
  except Exception as e:  # pylint: disable=broad-except
    call.last = traceback.format_exc(limit=-4)
    return None, type(e).__name__


call.last = ''


# ----------------------------------------------------------------------- TLC
def side_by_side(rng, players, width=3):
  """Advances generators alternately, in groups, so that objects which should not know of each other live together."""
  players = list(players)
  rng.shuffle(players)
  while players:
    group, players = players[:width], players[width:]
    while group:
      p = rng.choice(group)
      for _ in range(rng.choice([1, 1, 2, 5])):
        try:
          next(p)
        except StopIteration:
          group.remove(p)
          break


class MachineryError(Exception):
  pass


def _build_java():
  src = os.path.join(VERIF, 'java')
  dst = os.path.join(workdir(), 'java')
  if not os.path.isdir(dst):
    os.makedirs(dst + '.tmp', exist_ok=True)
    files = [os.path.join(src, f) for f in os.listdir(src) if f.endswith('.java')]
    subprocess.run(['javac', '-nowarn', '-cp', TLA + '/tla2tools.jar', '-d', dst + '.tmp'] + files,
                   check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    os.rename(dst + '.tmp', dst)
  return dst


class TlcResult:
  def __init__(self, out, rc):
    self.out, self.rc = out, rc
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    self.transitions, self.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    self.ok = 'No error has been found' in out

  def lines(self, tag):
    """JSON payloads printed by the spec with PrintT("TAG " \\o ToJson(x))."""
    res = []
    for ln in self.out.splitlines():
      if ln.startswith('"' + tag + ' '):
        res.append(json.loads(json.loads(ln)[len(tag) + 1:]))
    return res


def tlc(module, cfg, env=None, workers='auto', args=(), timeout=800, heap='3g'):
  """Runs TLC on spec/<module>.tla with the given configuration text."""
  java = _build_java()
  d = tempfile.mkdtemp(prefix='tlc_', dir=workdir())
  with open(os.path.join(d, module + '.cfg'), 'w') as f:
    f.write(cfg)
  e = dict(os.environ)
  e.update(env or {})
  cmd = ['java', '-XX:+UseSerialGC' if workers == 1 else '-XX:+UseParallelGC',
         '-Xmx' + heap, '-Xss64m', '-cp', ':'.join([
             java, TLA + '/tla2tools.jar', TLA + '/CommunityModules-deps.jar']),
         '-DTLA-Library=' + SPEC, 'tlc2.TLC', '-workers', str(workers),
         '-noGenerateSpecTE', '-metadir', os.path.join(d, 'meta'),
         '-config', os.path.join(d, module + '.cfg'), *args,
         os.path.join(SPEC, module + '.tla')]
  try:
    p = subprocess.run(cmd, env=e, cwd=d, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, timeout=timeout)
  except subprocess.TimeoutExpired:
    raise MachineryError(f'TLC timed out on {module}')
  res = TlcResult(p.stdout.decode('utf-8', 'replace'), p.returncode)
  shutil.rmtree(d, ignore_errors=True)
  return res


TRACE_CFG = '''SPECIFICATION TSpec
CHECK_DEADLOCK FALSE
CONSTANTS
  Start <- StartDef
  Judge <- JudgeDef
  After <- AfterDef
'''


def _judge_chunk(module, events, cfg, timeout, env=None):
  fd, path = tempfile.mkstemp(suffix='.ndjson', dir=workdir())
  with os.fdopen(fd, 'w') as f:
    for ev in events:
      f.write(json.dumps(ev) + '\n')
  r = tlc(module, cfg, env=dict(env or {}, TRACE=path), workers=1, timeout=timeout)
  v = r.lines('VERDICT')
  os.unlink(path)
  if len(v) == 1 and v[0]['n'] == len(events):
    return [(k - 1, c) for k, c in v[0]['bad']], r
  # The spec could not be evaluated on a recorded value: the event has a shape
  # the specification does not allow.  (Anything else is a machinery failure.)
  m = re.search(r'/\\ tkLine = (\d+)', r.out[r.out.rfind('State '):]) if 'State ' in r.out else None
  if 'evaluat' in r.out and 'Error' in r.out and ('OutOfMemory' not in r.out):
    return [(int(m.group(1)) - 1 if m else 0, 'trace-event-has-a-shape-the-spec-cannot-read')], r
  raise MachineryError(f'TLC gave no verdict on {module}:\n' + r.out[-3000:])


def judge(module, traces, cfg=TRACE_CFG, chunks=None, timeout=800, env=None):
  """Validates traces (lists of events; each starts with its own begin event).

  Returns (failures, stats): failures are (trace index, event index, clause).
  """
  traces = [t for t in traces if t]
  total = sum(len(t) for t in traces)
  chunks = chunks or max(1, min(NCPU, total // 400))
  parts, cur, size = [], [], 0
  for i, t in enumerate(traces):
    cur.append(i)
    size += len(t)
    if size >= total / chunks:
      parts.append(cur)
      cur, size = [], 0
  if cur:
    parts.append(cur)
  _build_java()
  def run(part):
    evs = [e for i in part for e in traces[i]]
    index = [(i, k) for i in part for k in range(len(traces[i]))]
    bad, r = _judge_chunk(module, evs, cfg, timeout, env)
    return [index[min(k, len(index) - 1)] + (c,) for k, c in bad], r
  with ThreadPoolExecutor(max_workers=NCPU) as ex:
    res = list(ex.map(run, parts))
  fails = [f for fs, _ in res for f in fs]
  return fails, dict(states=sum(r.states for _, r in res),
                     transitions=sum(r.transitions for _, r in res),
                     events=total, traces=len(traces))


def model_check(module, cfg, workers='auto', timeout=800, args=(), env=None):
  """Exhaustive check of a design model: must succeed, it is about the spec."""
  r = tlc(module, cfg, workers=workers, timeout=timeout, args=args, env=env)
  if not r.ok:
    raise MachineryError(f'model {module} failed:\n' + r.out[-4000:])
  return r


class Graph:
  """State graph emitted by a model: edges {f: state, a: action, t: state}.

  The spec prints "EDGE <json>" per transition and "INIT <json>" per initial
  state; states are identified by their canonical JSON.
  """

  def __init__(self, r):
    key = lambda s: json.dumps(s, sort_keys=True)
    self.inits = {key(s): s for s in r.lines('INIT')}
    self.out, self.nodes, seen = {}, dict(self.inits), set()
    for e in r.lines('EDGE'):
      f, t, a = key(e['f']), key(e['t']), key(e['a'])
      if (f, a, t) in seen:
        continue
      seen.add((f, a, t))
      self.nodes[f], self.nodes[t] = e['f'], e['t']
      self.out.setdefault(f, []).append((e['a'], t))
    self.n_edges = len(seen)

  def tour(self, rng, max_len=200, limit=None):
    """Paths from an initial state that together take every edge."""
    todo = {f: list(range(len(es))) for f, es in self.out.items()}
    for v in todo.values():
      rng.shuffle(v)
    left = sum(len(v) for v in todo.values())
    paths = []
    while left > 0 and (limit is None or len(paths) < limit):
      cur = rng.choice(sorted(self.inits))
      path, start = [], cur
      while len(path) < max_len:
        if todo.get(cur):
          a, t = self.out[cur][todo[cur].pop()]
          left -= 1
          path.append((a, t))
          cur = t
          continue
        hop = self._to_unused(cur, todo)
        if hop is None or len(path) + len(hop) >= max_len and path:
          break
        path.extend(hop)
        cur = path[-1][1]
      if not path:
        break
      paths.append((start, path))
    self.untaken = left
    return paths

  def _to_unused(self, src, todo):
    from collections import deque
    prev, q = {src: None}, deque([src])
    while q:
      u = q.popleft()
      if todo.get(u) and u != src:
        p = []
        while prev[u] is not None:
          v, a = prev[u]
          p.append((a, u))
          u = v
        return p[::-1]
      for a, t in self.out.get(u, ()):
        if t not in prev:
          prev[t] = (u, a)
          q.append(t)
    return None


# ------------------------------------------------------------------- verdict
class Check:

  def __init__(self, pid, level):
    self.pid, self.level = pid, level
    self.tier = os.environ.get('VERIF_TIER', 'quick')
    self.quick = self.tier != 'thorough'
    self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    h = int(hashlib.sha256(f'{pid}:{self.seed}'.encode()).hexdigest()[:12], 16)
    self.rng = random.Random(h)
    self.t0 = time.time()
    self.bad, self.cov, self.assumptions = [], {}, []
    self.states = self.transitions = self.validated = self.events = 0
    self.samples = []
    self.keys = set()
    self.parts = {}
    with open(os.path.join(VERIF, 'known_findings.json')) as f:
      self.known = [k for k in json.load(f)['findings']
                    if k['property'] == pid and k['status'] == 'known']

  def n(self, quick, thorough):
    return quick if self.quick else thorough

  def violation(self, clause, detail, key=None):
    """Records a violation. key identifies the exact input for known findings."""
    self.bad.append((clause, detail, key))

  def judge(self, module, traces, name=None, explain=None, nontrivial=None, **kw):
    """Validates recorded traces against spec/<module>.tla."""
    traces = [t for t in traces if t]
    if not traces:
      raise MachineryError('no traces for ' + module)
    t0 = time.time()
    fails, st = judge(module, traces, **kw)
    self.states += st['states']
    self.transitions += st['transitions']
    self.events += st['events']
    for t in traces:
      for e in t:
        self.keys.add(hashlib.md5(json.dumps(e, sort_keys=True).encode()).digest()[:8])
    bad_traces = set()
    for i, k, c in fails:
      bad_traces.add(i)
      tr = traces[i]
      ev = tr[k]
      self.violation(c, dict(module=module, trace=i, event=k, clause=c,
                             record=ev, before=tr[max(0, k - 3):k], begin=tr[0]),
                     key=ev.get('key') or tr[0].get('key'))
    self.validated += len(traces) - len(bad_traces)
    self.parts[name or module] = dict(
        traces=st['traces'], events=st['events'], tlc_states=st['states'],
        failures=len(fails), wall_s=round(time.time() - t0, 2))
    if len(self.samples) < 6:
      t = traces[self.rng.randrange(len(traces))]
      self.samples.append(dict(module=module, events=[_short(e) for e in t[:3]]))
    return fails

  def model(self, module, cfg, name=None, **kw):
    t0 = time.time()
    r = model_check(module, cfg, **kw)
    self.states += r.states
    self.transitions += r.transitions
    self.parts[name or module] = dict(
        model_states=r.states, model_transitions=r.transitions,
        wall_s=round(time.time() - t0, 2))
    return r

  def finish(self):
    wall = round(time.time() - self.t0, 2)
    shown, new, known_hit = set(), [], {}
    for clause, detail, key in self.bad:
      k = next((k for k in self.known
                if k['clause'] == clause and k['key'] == key), None)
      if k is not None:
        known_hit.setdefault(json.dumps(k, sort_keys=True), k)
      else:
        new.append((clause, detail, key))
    cov = dict(self.cov)
    cov.setdefault('parts', self.parts)
    cov['samples'] = self.samples[:6] or [dict(note='see parts')]
    if self.level == 'model_checking':
      cov.update(states=self.states, transitions=self.transitions,
                 traces_validated_against_impl=self.validated)
      cov['events_judged'] = self.events
    else:
      cov.setdefault('evaluations', self.events)
      cov.setdefault('distinct_nontrivial', len(self.keys))
      cov.setdefault('rule', 'one evaluation per recorded event judged by TLC; '
                     'distinct and non-trivial means different recorded content')
      cov.update(tlc_states=self.states, tlc_transitions=self.transitions,
                 traces_validated=self.validated)
    ev = dict(property=self.pid, tier='quick' if self.quick else 'thorough',
              seed=self.seed, level=self.level, coverage=cov,
              assumptions=self.assumptions, wall_s=wall, violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
      json.dump(ev, f, indent=1)
    for k in known_hit.values():
      print(f'KNOWN-FINDING: property={self.pid} {k["what"]}')
    if not new:
      print(f'{self.pid}: held on everything explored ({wall} s; '
            f'{self.events} events, {self.states} TLC states)')
      return 0
    d = os.path.join(OUT, self.pid)
    os.makedirs(d, exist_ok=True)
    for n, (clause, detail, key) in enumerate(new):
      if clause in shown:
        continue
      shown.add(clause)
      path = os.path.join(d, f'violation_{len(shown)}.json')
      with open(path, 'w') as f:
        json.dump(dict(property=self.pid, seed=self.seed, tier=self.tier,
                       clause=clause, key=key, detail=detail), f, indent=1,
                  default=str)
      print(f'{self.pid}: clause {clause} violated: {json.dumps(_short(detail), default=str)[:1500]}')
      print(f'VIOLATION property={self.pid} replay={path}')
    return 1


def _short(x, n=12):
  if isinstance(x, dict):
    return {k: _short(v, n) for k, v in x.items()}
  if isinstance(x, list):
    return [_short(v, n) for v in x[:n]] + (['...%d' % len(x)] if len(x) > n else [])
  return x
