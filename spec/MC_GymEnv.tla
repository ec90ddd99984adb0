----------------------------- MODULE MC_GymEnv ------------------------------
(* Every short history of calls an agent may make.                            *)
EXTENDS GymEnv, TLC, Json
CONSTANTS MaxFlights, MaxSteps, MaxIdle
VARIABLES w, idle, act
vars == <<w, idle, act>>
Zero == [fl |-> 0, n |-> 0, made |-> 0, told |-> <<>>, cmds |-> <<>>]
Init == w = Begin(Zero) /\ idle = 0 /\ act = [op |-> "init"]
Calls == { [op |-> "reset", info |-> b] : b \in BOOLEAN } \cup { [op |-> "step", a |-> a] : a \in (0-1)..3 }
         \cup { [op |-> "seed"], [op |-> "render"], [op |-> "close"], [op |-> "spaces"] }
         \cup { [op |-> "with", fails |-> b] : b \in BOOLEAN }
Next == \E c \in Calls :
          /\ w' = After1(w, c) /\ act' = c
          /\ w'.fl <= MaxFlights /\ w'.n <= MaxSteps
          /\ idle' = IF w' = w THEN idle + 1 ELSE 0
          /\ idle' <= MaxIdle
Spec == Init /\ [][Next]_vars
\* The serving constructor knows the current flight, all of it, and nothing else.
KnowsTheFlight == w.told = [i \in 1..(w.n + 1) |-> <<w.fl, i - 1>>]
OnePerFlight == w.made = w.fl
Obeyed == Len(w.cmds) = w.n
OnlyTransitionsFly == [][Answer(act') \in {"none", "refused", "itself", "reraised"} => w' = w]_vars
Obs == [fl |-> w.fl, n |-> w.n, idle |-> idle]
View == Obs
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
