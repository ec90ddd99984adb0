---------------------------- MODULE MC_MarcoPolo ----------------------------
(* Episodes of every length: the machine is the formula, phases have their   *)
(* lengths, and a new episode starts with the learner whatever came before.  *)
EXTENDS MarcoPolo, Sequences, TLC, Json
CONSTANTS MaxLen, MaxEps, Cuts
VARIABLES eps, on, explores, s, k, act
vars == <<eps, on, explores, s, k, act>>
Init == eps = 0 /\ on = FALSE /\ explores = FALSE /\ s = Fresh /\ k = 0 /\ act = [op |-> "init"]
Begin(x) == /\ eps < MaxEps /\ eps' = eps + 1 /\ on' = TRUE /\ explores' = x /\ s' = Fresh /\ k' = 0
            /\ act' = [op |-> "begin", x |-> x]
            /\ (on => k \in Cuts)
Act == /\ on /\ k < MaxLen /\ s' = Step(s, explores) /\ k' = k + 1 /\ act' = [op |-> "step"]
       /\ UNCHANGED <<eps, on, explores>>
Next == Act \/ \E x \in BOOLEAN : Begin(x)
Spec == Init /\ [][Next]_vars
MachineIsFormula == on => s.ph = Actor(explores, k)
PhaseBounds == (on /\ explores) => s.n <= Limit(s.ph)
LearnerFirst == (on /\ k < Rl) => s.ph = "learner"
\* A third of every full period is exploration.
Share == (on /\ explores /\ (k + 1) % (Rl + Ex) = 0) => s = [ph |-> "explorer", n |-> Ex]
NeverWithout == (on /\ ~explores) => s.ph = "learner"
Obs == [eps |-> eps, on |-> on, x |-> explores, k |-> k]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
View == <<eps, on, explores, k>>
CutsDef == {0, 1, 79, 80, 81, 119, 120, 121, 159, 199, 200, 240}
=============================================================================
