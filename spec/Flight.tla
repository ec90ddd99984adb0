------------------------------- MODULE Flight -------------------------------
(* The flight dynamics of one balloon: the substep function and the step    *)
(* with its safety layers.  A state is a record of floats:                  *)
(*  x y (m) p ta ti mhe mair vol sp acsw flow solar load charge (Wh)        *)
(*  ts (Unix s) el (elapsed s) status                                       *)
(* and a vehicle k is a record of constants:                                *)
(*  v0 dv menv mpay spmax cod nload dload valve cap lat lng (radians) ir    *)
EXTENDS Thermal, Acs, Envelope, AltitudeSafety, EnvelopeSafety, PowerSafety

Statuses == {"OK", "OUT_OF_POWER", "BURST", "ZEROPRESSURE"}

AscentRate(k, s) ==   \* m/s, positive is up
  LET rho == FDiv(FMul(s.p, AirMolar), FMul(GasR, s.ta))
      drag == FMul(k.cod, FPow(s.vol, FDiv(2, 3)))
      mass == FAdd(FAdd(FAdd(FMul(HeMolar, s.mhe), FMul(AirMolar, s.mair)), k.menv), k.mpay)
      net == FSub(FMul(rho, s.vol), mass)
  IN [dir |-> IF FGe(FMul(rho, s.vol), mass) THEN 1 ELSE -1,
      speed |-> FSqrt(FAbs(FDiv(FMul(FMul(2, net), Gravity), FMul(rho, drag))))]

PressureRate(atm, p, a) ==
  LET dp == a.dir
      slope == FDiv(dp, FSub(AtPressure(atm, FAdd(p, dp)).h, AtPressure(atm, p).h))
  IN FMul(slope, FMul(a.dir, a.speed))

SunOf(k, s) == LET ll == Offset(k.lat, k.lng, FDiv(s.x, 1000), FDiv(s.y, 1000))
               IN SolarAt(ll.lat, ll.lng, s.ts)

\* One substep of dt seconds in wind (u, v) with effective command eff.
SubStep(k, s, atm, u, v, eff, dt) ==
  LET asc == AscentRate(k, s)
      sun == SunOf(k, s)
      env == EnvelopeAt(FAdd(s.mhe, s.mair), s.ti, s.p, k.v0, k.dv)
      ratio == PressureRatio(s.p, s.sp)
      acsw == IF eff = "DOWN" THEN BestPower(ratio) ELSE "0.0"
      flow == CASE eff = "DOWN" -> PumpFlow(acsw, FanEfficiency(ratio, acsw))
                [] eff = "UP" -> VentFlow(k.valve, s.sp, s.p, s.ti)
                [] OTHER -> "0.0"
      day == IsDay(sun.el)
      solar == IF day THEN SolarPower(sun.el, s.p) ELSE "0.0"
      load == FAdd(IF day THEN k.dload ELSE k.nload, acsw)
      charge == FMax(0, FMin(k.cap, FAdd(s.charge, FDiv(FMul(FSub(solar, load), dt), 3600))))
      verdict == IF FLe(charge, 0) THEN "OUT_OF_POWER"
                 ELSE IF FLe(env.sp, 0) THEN "ZEROPRESSURE"
                 ELSE IF FGt(env.sp, k.spmax) THEN "BURST" ELSE "OK"
  IN [x |-> FAdd(s.x, FMul(u, dt)), y |-> FAdd(s.y, FMul(v, dt)),
      p |-> FAdd(s.p, FMul(PressureRate(atm, s.p, asc), dt)),
      ta |-> AtPressure(atm, s.p).t,
      ti |-> FAdd(s.ti, FMul(dt, TemperatureRate(s.vol, k.menv, s.ti, s.ta, s.p, sun.el, sun.flux, k.ir))),
      mhe |-> s.mhe,
      mair |-> FMax(0, FAdd(s.mair, FMul(FDiv(flow, AirMolar), dt))),
      vol |-> env.vol, sp |-> env.sp, acsw |-> acsw, flow |-> flow,
      solar |-> solar, load |-> load, charge |-> charge,
      ts |-> FAdd(s.ts, dt), el |-> FAdd(s.el, dt), status |-> verdict]

\* n substeps, stopping at a terminal event.
RECURSIVE SubSteps(_, _, _, _, _, _, _, _)
SubSteps(k, s, atm, u, v, eff, dt, n) ==
  IF n = 0 \/ s.status # "OK" THEN s
  ELSE SubSteps(k, SubStep(k, s, atm, u, v, eff, dt), atm, u, v, eff, dt, n - 1)

\* --- the safety layers ---
\* lay: [alt, env, pow, riseH, set] (riseH, set in seconds of ts)
PowerStage(k, lay, s) ==
  LET rh == RollOver(lay.riseH, s.ts)
      st == RollOver(lay.set, s.ts)
  IN [pow |-> PowNext(lay.pow, PhaseOf(rh, st), LowSoc(s.charge, k.cap),
                      Insufficient(s.charge, k.cap, k.nload, FSub(rh, s.ts))),
      riseH |-> rh, set |-> st]
FeetAt(atm, p) == FDiv(AtPressure(atm, p).h, "0.3048")
\* Layers after being consulted at state s (power only when enabled).
Layers(k, lay, s, atm, powerOn) ==
  LET pw == IF powerOn THEN PowerStage(k, lay, s)
            ELSE [pow |-> lay.pow, riseH |-> lay.riseH, set |-> lay.set]
  IN [alt |-> AltNext(lay.alt, AltZoneOf(FeetAt(atm, s.p))),
      env |-> EnvNext(lay.env, EnvZoneOf(s.sp, k.spmax)),
      pow |-> pw.pow, riseH |-> pw.riseH, set |-> pw.set]
\* The command that takes effect, given the consulted layers.
Effective(lay, powerOn, cmd) ==
  LET c1 == IF powerOn THEN PowFilter(lay.pow, cmd) ELSE cmd
      c2 == EnvFilter(lay.env, c1)
  IN AltFilter(lay.alt, c2)
Paused(lay) == lay.pow \/ EnvPaused(lay.env) \/ AltPaused(lay.alt)
=============================================================================
