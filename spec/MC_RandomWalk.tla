---------------------------- MODULE MC_RandomWalk ---------------------------
(* A balloon flown by the agent on a coarse pressure grid (units of 50 Pa):  *)
(* with the target at rest the balloon settles within the hysteresis and     *)
(* stays; commands never push it away from the target; and the target is     *)
(* recovered from the answers to enough probes.                              *)
EXTENDS RandomWalk, TLC
CONSTANTS Grid, Moves
VARIABLES p, target, left
vars == <<p, target, left>>
U == 50
Init == p \in Grid /\ target \in Grid /\ left \in 0..Moves
A == Action(p * U, target * U)
Fly == /\ p' = CASE A = "UP" -> p - 1 [] A = "DOWN" -> p + 1 [] OTHER -> p
       /\ UNCHANGED <<target, left>>
Walk(d) == left > 0 /\ target + d \in Grid /\ target' = target + d /\ left' = left - 1 /\ UNCHANGED p
Next == Fly \/ \E d \in {-3, -1, 2} : Walk(d)
Spec == Init /\ [][Next]_vars /\ WF_vars(Fly)
Dist(x, y) == IF x > y THEN x - y ELSE y - x
TowardsTarget == [][p' # p => Dist(p', target) < Dist(p, target)]_vars
StaysInGrid == p \in Grid
StayIsNear == A = "STAY" <=> Dist(p, target) * U <= Hysteresis
Settles == <>[](Dist(p, target) * U <= Hysteresis)
Recover == LET q == [i \in 1..41 |-> [p |-> (i - 1) * U, a |-> Action((i - 1) * U, target * U)]]
           IN FLe(Lo(q), target * U) /\ FLe(target * U, Hi(q)) /\ FLe(FSub(Hi(q), Lo(q)), 2 * U)
GridDef == 0..40
=============================================================================
