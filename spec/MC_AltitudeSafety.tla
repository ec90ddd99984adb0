------------------------- MODULE MC_AltitudeSafety --------------------------
(* Every history of altitude zones and commands.  The invariants restate    *)
(* the property over the history (wasLow: has been in a low zone since the  *)
(* last time it was in the nominal zone), independently of the machine.     *)
EXTENDS AltitudeSafety, Sequences, TLC, Json
VARIABLES layer, wasLow, last   \* last: <<zone, command, effective>>
vars == <<layer, wasLow, last>>

Init == layer = "NOMINAL" /\ wasLow = FALSE /\ last = <<"nominal", "STAY", "STAY">>
Step(zone, cmd) ==
  /\ layer' = AltNext(layer, zone)
  /\ wasLow' = CASE zone \in {"very_low", "low"} -> TRUE
                 [] zone = "nominal" -> FALSE
                 [] OTHER -> wasLow
  /\ last' = <<zone, cmd, AltFilter(layer', cmd)>>
Next == \E zone \in AltZones, cmd \in Commands : Step(zone, cmd)
Spec == Init /\ [][Next]_vars

TypeOK == layer \in AltStates /\ last[1] \in AltZones /\ last[3] \in Commands
ForcedAscentBelowFloor == last[1] = "very_low" => last[3] = "UP"
NoDescentWhileLow == wasLow => last[3] # "DOWN"
TransparentWhenClear == ~wasLow => last[3] = last[2]
OnlyDescentIsBlockedAboveFloor ==
  (last[1] # "very_low" /\ last[2] # "DOWN") => last[3] = last[2]
PausedIffRestricting == AltPaused(layer) = wasLow

Obs == [layer |-> layer]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> [zone |-> last'[1], cmd |-> last'[2]], t |-> Obs']))
=============================================================================
