----------------------------- MODULE PowerSafety ----------------------------
(* The power safety layer: a latch that blocks descent, set at night when   *)
(* the charge would not last until 30 minutes after sunrise, released by    *)
(* day when the charge is (again) sufficient.                               *)
EXTENDS FloatOps

Day == 86400
\* The next occurrence of a daily event (seconds) that is not in the past.
RECURSIVE RollOver(_, _)
RollOver(at, now) == IF FGt(now, at) THEN RollOver(FAdd(at, Day), now) ELSE at

\* It is day when the next sunset comes before the next (sunrise + 30 min).
PhaseOf(sunriseH, sunset) == IF FLt(sunset, sunriseH) THEN "day" ELSE "night"

PowNext(paused, phase, lowSoc, insufficient) ==
  IF phase = "day" THEN paused /\ lowSoc
  ELSE paused \/ insufficient
PowFilter(paused, cmd) == IF paused /\ cmd = "DOWN" THEN "STAY" ELSE cmd

\* Concrete conditions (energies in watt hours, power in watts, seconds).
LowSoc(charge, capacity) == FLt(FDiv(charge, capacity), "0.05")
Insufficient(charge, capacity, load, untilSunriseH) ==
  FLt(FDiv(FSub(charge, FDiv(FMul(load, untilSunriseH), 3600)), capacity), "0.025")
=============================================================================
