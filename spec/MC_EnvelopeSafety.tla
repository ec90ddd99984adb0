------------------------- MODULE MC_EnvelopeSafety --------------------------
(* Every history of superpressure zones and commands; the history variables *)
(* say on which side the envelope has been in trouble since it last left    *)
(* the hysteresis band of that side.                                        *)
EXTENDS EnvelopeSafety, Sequences, TLC, Json
VARIABLES layer, lowTrouble, highTrouble, last
vars == <<layer, lowTrouble, highTrouble, last>>
Commands == {"DOWN", "STAY", "UP"}

Init == /\ layer = "NOMINAL" /\ lowTrouble = FALSE /\ highTrouble = FALSE
        /\ last = <<"nominal", "STAY", "STAY">>
Step(zone, cmd) ==
  /\ layer' = EnvNext(layer, zone)
  /\ lowTrouble' = CASE zone \in {"low_critical", "low"} -> TRUE
                     [] zone = "low_hyst" -> lowTrouble
                     [] OTHER -> FALSE
  /\ highTrouble' = CASE zone \in {"high_critical", "high"} -> TRUE
                      [] zone = "high_hyst" -> highTrouble
                      [] OTHER -> FALSE
  /\ last' = <<zone, cmd, EnvFilter(layer', cmd)>>
Next == \E zone \in EnvZones, cmd \in Commands : Step(zone, cmd)
Spec == Init /\ [][Next]_vars

Trouble == lowTrouble \/ highTrouble
TypeOK == layer \in EnvStates /\ last[3] \in Commands
ForcedAscentInCritical == last[1] \in {"low_critical", "high_critical"} => last[3] = "UP"
NoDescentInTrouble == Trouble => last[3] # "DOWN"
TransparentWhenClear == ~Trouble => last[3] = last[2]
OnlyDescentIsBlockedOutsideCritical ==
  (last[1] \notin {"low_critical", "high_critical"} /\ last[2] # "DOWN") => last[3] = last[2]
PausedIffRestricting == EnvPaused(layer) = Trouble

Obs == [layer |-> layer]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> [zone |-> last'[1], cmd |-> last'[2]], t |-> Obs']))
=============================================================================
