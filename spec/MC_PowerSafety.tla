-------------------------- MODULE MC_PowerSafety ----------------------------
(* Integer model of nights and days with a battery.  Energy unit: what the  *)
(* hotel load uses in one tick.  At night the battery loses Load per tick,  *)
(* plus Pump when a descent takes effect; by day it changes arbitrarily.    *)
(* The layer is evaluated once per tick, before the tick's consumption.     *)
EXTENDS PowerSafety, TLC, Json
CONSTANTS NightTicks, DayTicks, Cap, Load, Pump
VARIABLES t,        \* tick within the cycle: 0..NightTicks-1 night, then day
          charge, paused,
          enough,   \* the night began with charge for the night plus reserve
          last,     \* <<phase, cmd, effective, insufficient, lowSoc>>
          pausedTonight
vars == <<t, charge, paused, enough, last, pausedTonight>>
Commands == {"DOWN", "STAY", "UP"}
Reserve == 1        \* stands for 2.5 % of capacity
Restart == 2        \* stands for 5 %

Phase == IF t < NightTicks THEN "night" ELSE "day"
Untl == NightTicks - t
Insuf == charge - Load * Untl < Reserve
Low == charge < Restart

Init == /\ t = 0 /\ charge \in 0..Cap /\ paused = FALSE
        /\ enough = (charge - Load * NightTicks >= Reserve)
        /\ last = <<"night", "STAY", "STAY", FALSE, FALSE>> /\ pausedTonight = FALSE
Clip(x) == IF x < 0 THEN 0 ELSE IF x > Cap THEN Cap ELSE x
Tick(cmd, delta) ==
  LET p == PowNext(paused, Phase, Low, Insuf)
      eff == PowFilter(p, cmd)
      c2 == IF Phase = "night"
            THEN Clip(charge - Load - (IF eff = "DOWN" THEN Pump ELSE 0))
            ELSE Clip(charge + delta)
      t2 == (t + 1) % (NightTicks + DayTicks)
  IN /\ paused' = p
     /\ last' = <<Phase, cmd, eff, Insuf, Low>>
     /\ charge' = c2
     /\ t' = t2
     /\ enough' = IF t2 = 0 THEN c2 - Load * NightTicks >= Reserve
                  ELSE IF Phase = "night" THEN enough ELSE FALSE
     /\ pausedTonight' = IF Phase = "night" THEN (t # 0 /\ pausedTonight) \/ p ELSE FALSE
Next == \E cmd \in Commands, delta \in {-2, 0, 3} :
          /\ (Phase = "night" => delta = 0)
          /\ Tick(cmd, delta)
Spec == Init /\ [][Next]_vars

TypeOK == t \in 0..(NightTicks + DayTicks - 1) /\ charge \in 0..Cap /\ paused \in BOOLEAN
OnlyDescentIsBlocked == last[2] # "DOWN" => last[3] = last[2]
NoDescentWhilePaused == paused => last[3] # "DOWN"
LatchedForTheNight == pausedTonight => paused
PausedAtNightWhenInsufficient == (last[1] = "night" /\ last[4]) => paused
ReleasedByDayWhenCharged == (last[1] = "day" /\ ~last[5]) => ~paused
NeverPausesByDay == [][(Phase = "day" /\ ~paused) => ~paused']_vars
\* The guarantee the layer exists for: a night that began with enough charge
\* never drains the battery by more than one tick of pumping below reserve.
SurvivesTheNight == (enough /\ t # 0 /\ last[1] = "night") =>
                      charge >= Load * (NightTicks - t) + Reserve - Pump

\* Discrete conformance graph: state = latch, action = (phase, conditions, cmd)
Obs == [paused |-> paused]
Act == [phase |-> last'[1], cmd |-> last'[2], insuf |-> last'[4], low |-> last'[5]]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> Act, t |-> Obs']))
=============================================================================
