--------------------------- MODULE T_PowerSafety ----------------------------
(* begin: sunrise, sunset (seconds after the layer was created)             *)
(* get: now, cmd, charge, capacity, load -> eff, paused                     *)
EXTENDS TraceKit, PowerSafety

StartDef == [paused |-> FALSE, sunriseH |-> "0", sunset |-> "0"]
NewRiseH(s, e) == RollOver(s.sunriseH, e.now)
NewSet(s, e) == RollOver(s.sunset, e.now)
NewPaused(s, e) ==
  LET rh == NewRiseH(s, e)
  IN PowNext(s.paused, PhaseOf(rh, NewSet(s, e)), LowSoc(e.charge, e.capacity),
             Insufficient(e.charge, e.capacity, e.load, FSub(rh, e.now)))
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> << Clause("new-layer-is-not-paused", ~e.paused),
                            Clause("sunrise-and-sunset-ahead", FGe(e.sunrise, 0) /\ FGe(e.sunset, 0)) >>
    [] e.ev = "get" ->
       LET p == NewPaused(s, e) IN
       << Clause("no-exception", e.exc = "ok"),
          Clause("effective-command", e.eff = PowFilter(p, e.cmd)),
          Clause("paused-iff-blocking", e.paused = p) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) ==
  CASE e.ev = "begin" -> [paused |-> FALSE, sunriseH |-> FAdd(e.sunrise, 1800), sunset |-> e.sunset]
    [] e.ev = "get" -> [paused |-> NewPaused(s, e), sunriseH |-> NewRiseH(s, e), sunset |-> NewSet(s, e)]
    [] OTHER -> s
=============================================================================
