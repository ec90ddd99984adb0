"""C37: generated wind fields."""
import datetime as dt, hashlib
import kit, winddrv
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ specification of the generative model (spec/Generator.tla: shapes, decoder, curl, encoder); TLC checks '
             'incompressibility of the curl of every small stream function (MC_Generator) and recomputes what small '
             'decoders and encoders return; fields generated by the sampler are judged by TLC (T_Generator)')
NOTE = ('The published weights are not in the repository; the sampler is run with random ones. For fields of the full size '
        'shape, incompressibility and dependence on the key are judged; the decoder is recomputed on small ones. Single precision.')
CFG = '''SPECIFICATION Spec
CONSTANTS
  N = {n}
  Bumps = {b}
  W = 3
INVARIANTS Incompressible TransportsSomething Enlarged Symmetric
CHECK_DEADLOCK FALSE
'''


def run(c):
  winddrv.lib()   # supplies weights: the published ones are not in the repository
  import jax, numpy as np
  from balloon_learning_environment.env import generative_wind_field as g
  from balloon_learning_environment.generative import vae
  rng, F = c.rng, kit.flt
  nest = lambda a: nest_(np.asarray(a, np.float64))
  nest_ = lambda a: F(float(a)) if a.ndim == 0 else [nest_(x) for x in a]
  flat = lambda a: [F(float(v)) for v in np.asarray(a, np.float64).reshape(-1)]
  c.model('MC_Generator', CFG.format(n=c.n(4, 5), b=c.n(2, 3)), workers=4)

  def shape():
    w = rng.randrange(2, 6)
    return vae.FieldShape(latlng_slices=rng.randrange(max(w, 3), 8), flow_field_width=w, pressure_slices=rng.randrange(1, 5),
                          time_slices=rng.choice([1, 2, 3, 5]), latlng_displacement_km=rng.choice([500.0, 250.0, 120.5]),
                          max_pressure_pa=rng.choice([14000.0, 12500.0]), min_pressure_pa=rng.choice([5000.0, 4100.0]),
                          time_horizon_hours=rng.choice([48, 24, 12]))

  def rec(s):
    return dict(n=s.latlng_slices, w=s.flow_field_width, np=s.pressure_slices, nt=s.time_slices,
                km=F(s.latlng_displacement_km), pmax=F(s.max_pressure_pa), pmin=F(s.min_pressure_pa), hours=int(s.time_horizon_hours))

  def shape_event(s):
    ints = lambda t: [int(v) for v in t]
    return dict(ev='shape', s=rec(s), grid=ints(s.grid_shape()), dir=ints(s.direction_grid_shape()),
                points=int(s.num_grid_points()), output=int(s.output_length()), flows=int(s.num_flow_fields()),
                units=int(s.num_flow_field_units()), xs=flat(s.latlng_grid_points()), ps=flat(s.pressure_grid_points()),
                ts=flat(s.time_grid_points()))

  def shake(params):
    """Other weights of the same structure, biases included."""
    r = np.random.default_rng(rng.randrange(2**31))
    return jax.tree_util.tree_map(lambda a: np.asarray(r.normal(0, 0.6, np.shape(a)), np.float32), params)

  def layer(p):
    return dict(w=nest(p['kernel']), b=flat(p['bias']))

  key = lambda: jax.random.PRNGKey(rng.randrange(2**31))
  ts = []
  for _ in range(c.n(40, 400)):
    s, nl = shape(), rng.randrange(0, 3)
    t = [dict(ev='begin'), shape_event(s)]
    width, nz = rng.randrange(2, 6), rng.randrange(1, 5)
    d = vae.Decoder(num_hidden_layers=nl, hidden_layer_network_width=width, field_shape=s)
    z = np.random.default_rng(rng.randrange(2**31)).normal(0, 1.5, nz).astype(np.float32)
    ps = shake(d.init(key(), z))
    out, exc = kit.call(d.apply, ps, z)
    e = dict(ev='decode', s=rec(s), exc=exc, z=flat(z), layers=[layer(ps['params'][f'Dense_{i}']) for i in range(nl)],
             last=layer(ps['params'][f'Dense_{nl}']))
    if exc == 'ok':
      e.update(dims=list(np.shape(out)), out=nest(out), tol=F(1e-5 * (1 + float(np.abs(out).max()))))
    t.append(e)
    xs = np.random.default_rng(rng.randrange(2**31)).normal(0, 30, rng.randrange(2, 12)).astype(np.float32)
    en = vae.Encoder(num_latents=nz, num_hidden_layers=nl, hidden_layer_network_width=width)
    ps = shake(en.init(key(), xs))
    out, exc = kit.call(en.apply, ps, xs.reshape(-1, 1) if rng.random() < 0.5 else xs)
    e = dict(ev='encode', exc=exc, xs=flat(xs), layers=[layer(ps['params'][f'Dense_{i}']) for i in range(nl)],
             mean=layer(ps['params']['mean']), logvar=layer(ps['params']['logvar']))
    if exc == 'ok':
      e.update(m=flat(out.mean), lv=flat(out.logvar))
    t.append(e)
    ts.append(t)
  for _ in range(c.n(4, 30)):
    ts.append([dict(ev='begin'), vae_event(rng, shape(), flat, rec, key)])
  # Fields of the full size, from the sampler and from the deprecated class.
  samplers = [g.GenerativeWindFieldSampler() for _ in range(2)]
  s = samplers[0].field_shape
  t = [dict(ev='begin'), shape_event(s)]
  keys = [key() for _ in range(c.n(4, 12))]
  dates = []
  keys.append(keys[0] + np.array([0, 1], np.uint32))
  for i in rng.sample(range(len(keys)), len(keys)) + [rng.randrange(len(keys)) for _ in range(c.n(6, 30))]:
    when = dt.datetime(2011 + rng.randrange(4), rng.randint(1, 12), rng.randint(1, 28), rng.randrange(24), tzinfo=dt.timezone.utc)
    if dates and rng.random() < 0.6:
      when = rng.choice(dates)
    dates.append(when)
    if rng.random() < 0.7:
      f, exc = kit.call(rng.choice(samplers).sample_field, keys[i], when)
    else:
      w = g.GenerativeWindField()
      _, exc = kit.call(w.reset_forecast, keys[i], when)
      f = w.field if exc == 'ok' else None
    e = dict(ev='field', exc=exc, key=str(i), s=rec(s))
    if exc == 'ok':
      f = np.asarray(f)
      ok = f.shape == s.grid_shape()
      slices = []
      for _ in range(3 if ok else 0):
        a = f[:, :, rng.randrange(s.pressure_slices), rng.randrange(s.time_slices)]
        slices.append(dict(u=nest(a[..., 0]), v=nest(a[..., 1])))
      want = np.asarray(vae.Decoder().apply(samplers[0].params, jax.random.normal(keys[i], shape=(64,))))
      r = np.random.default_rng(1).integers(0, want.size, 60)
      e.update(dims=list(f.shape), finite=bool(np.isfinite(f).all()), tol=F(3e-5 * (0.01 + float(np.abs(f).max()))), slices=slices,
               sum=hashlib.sha1(np.round(f.astype(np.float64), 3).tobytes()).hexdigest()[:12],
               some=flat(f.reshape(-1)[r]) if ok else [], want=flat(want.reshape(-1)[r]))
    t.append(e)
  ts.append(t)
  c.judge('T_Generator', ts, chunks=8)
  c.cov['executions'] = dict(decoders=sum(e['ev'] == 'decode' for t in ts for e in t), full_size_fields=sum(e['ev'] == 'field' for t in ts for e in t))


def vae_event(rng, s, flat, rec, key):
  """The whole autoencoder beside its parts."""
  import jax, numpy as np
  from balloon_learning_environment.generative import vae
  nz, draw = rng.randrange(1, 6), rng.random() < 0.6
  m = vae.WindFieldVAE(num_latents=nz, reparameterize_latents=draw, field_shape=s)
  r = np.random.default_rng(rng.randrange(2**31))
  x = r.normal(0, 20, s.grid_shape()).astype(np.float32)
  zkey = key()
  e = dict(ev='vae', s=rec(s), draw=draw)
  def go():
    ps = m.init(key(), x, zkey)
    ps = jax.tree_util.tree_map(lambda a: np.asarray(a) + np.asarray(r.normal(0, 0.02, np.shape(a)), np.float32), ps)
    out = m.apply(ps, x, zkey)
    part = lambda n: {'params': ps['params'][n]}
    enc = vae.Encoder(nz).apply(part('encoder'), x)
    dec = lambda z: vae.Decoder(field_shape=s).apply(part('decoder'), z)
    eps = jax.random.normal(zkey, (nz,))
    z = enc.mean + eps * np.exp(0.5 * enc.logvar) if draw else enc.mean
    z2 = r.normal(0, 1, nz).astype(np.float32)
    gen = m.apply(ps, z2, method=m.generate)
    full = np.asarray(out.reconstruction)
    some = r.integers(0, full.size, 40)
    pick = lambda a: flat(np.asarray(a).reshape(-1)[some % np.asarray(a).size])
    return dict(dims=list(full.shape), mean=flat(out.encoder_output.mean), logvar=flat(out.encoder_output.logvar),
                encmean=flat(enc.mean), enclogvar=flat(enc.logvar), eps=flat(eps), z=flat(z), rec=pick(full),
                decoded=pick(dec(z)), gen=pick(gen), decodedz=pick(dec(z2)), tol=kit.flt(1e-4 * (1 + float(np.abs(full).max()))))
  out, exc = kit.call(go)
  e['exc'] = exc
  if exc == 'ok':
    e.update(out)
  else:
    e['why'] = kit.call.last[-300:]
  return e
