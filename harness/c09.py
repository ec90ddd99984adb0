"""C09: power safety layer."""
import datetime as dt
import kit
LEVEL = 'model_checking'
TECHNIQUE = ('TLA+ model of the power layer (spec/PowerSafety.tla); TLC checks its invariants over all histories of '
             'charge and time of day and commands (MC_PowerSafety), every transition is replayed into the real layer, and recorded '
             'random walks of the real layer are judged by TLC (T_PowerSafety)')
NOTE = 'The model abstracts charge and time of day to its thresholds; the recorded walks use real-valued states.'

CFG = '''SPECIFICATION Spec
CONSTANTS NightTicks = %d DayTicks = %d Cap = %d Load = 1 Pump = 2
INVARIANTS TypeOK OnlyDescentIsBlocked NoDescentWhilePaused LatchedForTheNight
  PausedAtNightWhenInsufficient ReleasedByDayWhenCharged SurvivesTheNight
PROPERTY NeverPausesByDay
CHECK_DEADLOCK FALSE
'''
EMIT = 'INVARIANT EmitInit\nACTION_CONSTRAINT EmitEdge\n'


class Driver:

  def __init__(self, rng, lat, lng, start, cap_wh, load_w):
    import s2sphere as s2
    from balloon_learning_environment.env.balloon import control, power_safety, solar
    from balloon_learning_environment.utils import units
    self.C, self.units = control.AltitudeControlCommand, units
    ll = s2.LatLng.from_degrees(lat, lng)
    self.start, self.cap, self.load = start, cap_wh, load_w
    self.layer = power_safety.PowerSafetyLayer(ll, start)
    rise, sset = solar.get_next_sunrise_sunset(ll, start)
    self.rise = (rise - start).total_seconds()
    self.set = (sset - start).total_seconds()
    self.now = 0.0
    self.t = [dict(ev='begin', sunrise=kit.flt(self.rise), sunset=kit.flt(self.set),
                   lat=kit.flt(lat), lng=kit.flt(lng), start=str(start),
                   paused=bool(self.layer.navigation_is_paused))]

  def get(self, now, charge, cmd):
    u = self.units
    self.now = now
    eff, exc = kit.call(self.layer.get_action, self.C[cmd],
                        self.start + dt.timedelta(seconds=now),
                        u.Power(watts=self.load), u.Energy(watt_hours=charge),
                        u.Energy(watt_hours=self.cap))
    self.t.append(dict(ev='get', now=kit.flt(now), cmd=cmd, exc=exc,
                       charge=kit.flt(charge), capacity=kit.flt(self.cap), load=kit.flt(self.load),
                       eff=eff.name if isinstance(eff, self.C) else str(eff),
                       paused=bool(self.layer.navigation_is_paused)))

  # --- where the driver stands in the (daily) cycle ---
  def next_at(self, x, now):
    while now > x: x += 86400.0
    return x

  def need(self, now):
    """Charge that just suffices at time now."""
    rh = self.next_at(self.rise + 1800, now)
    return self.load * (rh - now) / 3600.0 + 0.025 * self.cap

  def is_day(self, now):
    return self.next_at(self.set, now) < self.next_at(self.rise + 1800, now)


def random_driver(rng):
  start = dt.datetime(rng.choice([2011, 2012, 2014, 2020]), rng.randint(1, 12), rng.randint(1, 28),
                      rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59), tzinfo=dt.timezone.utc)
  lat = rng.choice([rng.uniform(-10, 10), rng.uniform(-45, 45)])
  return Driver(rng, lat, rng.uniform(-179, 179), start,
                rng.choice([3058.56, 3058.56, 1000.0, 5000.0]),
                rng.choice([183.7, 183.7, 90.0, 250.0]))


def run(c):
  rng = c.rng
  cfg = CFG % ((4, 3, 9) if c.quick else (8, 4, 16))
  r = c.model('MC_PowerSafety', cfg + EMIT, workers=1)
  g = kit.Graph(r)
  if not c.quick:
    c.model('MC_PowerSafety', CFG % (12, 6, 30), name='MC_PowerSafety large')
  traces = []

  # 1. Every (latch, phase, conditions, command) transition of the model.
  for _ in range(c.n(2, 20)):
    for _, path in g.tour(rng, max_len=40):
      d = random_driver(rng)
      now = 0.0
      for a, _ in path:
        want_day = a['phase'] == 'day'
        for _ in range(200):
          if d.is_day(now) == want_day: break
          now += rng.uniform(200, 1500)
        lo_soc, need = 0.05 * d.cap, d.need(now)
        # choose a charge with the wanted conditions, if there is one
        lo, hi = 0.0, d.cap
        if a['low']: hi = min(hi, lo_soc - 1e-6)
        else: lo = max(lo, lo_soc + 1e-6)
        if not want_day:
          if a['insuf']: hi = min(hi, need - 1e-6)
          else: lo = max(lo, need + 1e-6)
        if lo > hi:
          lo = hi = rng.uniform(0, d.cap)
        charge = rng.choice([lo, hi, rng.uniform(lo, hi)])
        d.get(now, charge, a['cmd'])
        now += rng.choice([10.0, 180.0, 180.0])
      traces.append(d.t)
  c.cov['model_edges_replayed'] = g.n_edges

  # 2. Random multi-day flights with jumps, near-threshold charges.
  def wander():
    d = random_driver(rng)
    traces.append(d.t)
    now, charge = 0.0, rng.uniform(0, d.cap)
    big = rng.random() * 0.1
    for _ in range(rng.choice([40, 150, 300])):
      u = rng.random()
      if u < big: now += rng.choice([1, 2, 5]) * 86400.0 + rng.uniform(-3600, 3600)
      elif u < big + 0.1:  # at and around sunset and 30 minutes past sunrise
        now = d.next_at(rng.choice([d.set, d.rise + 1800]), now) + rng.choice([-1.0, 0.0, 1.0, 600.0])
        now = max(now, d.now)
      elif u < 0.5: now += 180.0
      else: now += rng.uniform(0, 5400)
      v = rng.random()
      if v < 0.15: charge = d.need(now) + rng.choice([-1e-3, 1e-3, -0.5, 0.5, -20, 20])
      elif v < 0.25: charge = 0.05 * d.cap + rng.choice([-1e-3, 1e-3, -5, 5])
      elif v < 0.3: charge = rng.choice([0.0, d.cap])
      else: charge += rng.gauss(0, 60)
      charge = min(max(charge, 0.0), d.cap)
      d.get(now, charge, rng.choice(['DOWN', 'DOWN', 'STAY', 'UP']))
      yield
  kit.side_by_side(rng, [wander() for _ in range(c.n(25, 300))])

  # 3. Realistic nights: hotel load, pumping when allowed, every three minutes.
  for k in range(c.n(10, 100)):
    d = random_driver(rng)
    charge = d.cap * rng.uniform(0.4, 1.0)
    for i in range(600):
      now = i * 180.0
      d.get(now, charge, rng.choice(['DOWN', 'DOWN', 'STAY', 'UP']))
      pump = 220.0 if d.t[-1]['eff'] == 'DOWN' else 0.0
      sun = 600.0 if d.is_day(now) else 0.0
      charge = min(max(charge + (sun - d.load - pump) * 0.05, 0.0), d.cap)
    traces.append(d.t)
  c.judge('T_PowerSafety', traces)
