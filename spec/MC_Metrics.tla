----------------------------- MODULE MC_Metrics -----------------------------
(* Every short history of what the training loop tells the collectors.       *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS MaxEps, MaxSteps, Starts
VARIABLES ep0, eps, k, in, run, act
vars == <<ep0, eps, k, in, run, act>>
Init == ep0 \in Starts /\ eps = 0 /\ k = 0 /\ in = FALSE /\ run = "new" /\ act = [op |-> "init"]
Pre == run = "new" /\ run' = "on" /\ act' = [op |-> "pre"] /\ UNCHANGED <<ep0, eps, k, in>>
Begin == run = "on" /\ ~in /\ eps < MaxEps /\ in' = TRUE /\ k' = 0 /\ act' = [op |-> "begin"] /\ UNCHANGED <<ep0, eps, run>>
Step == in /\ k < MaxSteps /\ k' = k + 1 /\ act' = [op |-> "step"] /\ UNCHANGED <<ep0, eps, in, run>>
End(t) == in /\ (t => k > 0) /\ in' = FALSE /\ eps' = eps + 1 /\ act' = [op |-> "end", t |-> t]
          /\ k' = 0 /\ UNCHANGED <<ep0, run>>
Fin == run = "on" /\ ~in /\ run' = "off" /\ act' = [op |-> "fin"] /\ UNCHANGED <<ep0, eps, k, in>>
Next == Pre \/ Begin \/ Step \/ Fin \/ \E t \in BOOLEAN : End(t)
Spec == Init /\ [][Next]_vars
TypeOK == eps \in 0..MaxEps /\ k \in 0..MaxSteps /\ (run # "on" => ~in)
Obs == [ep0 |-> ep0, eps |-> eps, k |-> k, in |-> in, run |-> run]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
View == <<ep0, eps, k, in, run>>
StartsDef == {0, 3, 50}
=============================================================================
