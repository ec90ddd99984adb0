----------------------------- MODULE MC_Learner -----------------------------
(* Histories of training and evaluation episodes, saving and restarting.     *)
EXTENDS Learner, TLC, Json
CONSTANTS MaxSteps, MaxEps, Hist, Update, Target
VARIABLES m, in, k, eps, n, steps, trained, sav, act
vars == <<m, in, k, eps, n, steps, trained, sav, act>>
cfg == [hist |-> Hist, update |-> Update, target |-> Target]
None == [n |-> -1, steps |-> -1, trained |-> -1]
Now == [n |-> n, steps |-> steps, trained |-> trained]
Init == /\ m = "train" /\ in = FALSE /\ k = 0 /\ eps = 0 /\ n = 0 /\ steps = 0 /\ trained = 0
        /\ sav = None /\ act = [op |-> "init"]
Choose(stored) ==   \* a training agent stores, trains, and then chooses
  IF m = "train"
  THEN /\ n' = n + stored /\ steps' = steps + 1
       /\ trained' = trained + (IF Trains(cfg, n + stored, steps) THEN 1 ELSE 0)
  ELSE UNCHANGED <<n, steps, trained>>
Begin == ~in /\ eps < MaxEps /\ in' = TRUE /\ k' = 0 /\ eps' = eps + 1 /\ Choose(0)
         /\ act' = [op |-> "begin"] /\ UNCHANGED <<m, sav>>
Step == in /\ k < MaxSteps /\ k' = k + 1 /\ Choose(1) /\ act' = [op |-> "step"] /\ UNCHANGED <<m, in, eps, sav>>
End(t) == /\ in /\ in' = FALSE /\ n' = n + (IF m = "train" THEN 1 ELSE 0) /\ k' = 0
          /\ act' = [op |-> "end", t |-> t] /\ UNCHANGED <<m, eps, steps, trained, sav>>
Mode(x) == ~in /\ x # m /\ m' = x /\ act' = [op |-> "mode", m |-> x] /\ UNCHANGED <<in, k, eps, n, steps, trained, sav>>
Save == ~in /\ sav # Now /\ sav' = Now /\ act' = [op |-> "save"] /\ UNCHANGED <<m, in, k, eps, n, steps, trained>>
Restart == /\ ~in /\ sav # None /\ sav # Now /\ n' = sav.n /\ steps' = sav.steps /\ trained' = sav.trained /\ m' = "train"
           /\ act' = [op |-> "restart"] /\ UNCHANGED <<in, k, eps, sav>>
Next == Begin \/ Step \/ Save \/ Restart \/ (\E t \in BOOLEAN : End(t)) \/ (\E x \in {"train", "eval"} : Mode(x))
Spec == Init /\ [][Next]_vars
\* Every transition of a training episode is stored once: one per action.
Counts == n <= steps
NoEarlyTraining == (trained > 0) => n > Hist
TrainsInTime == trained <= steps
FrozenInEval == [][(m = "eval" /\ m' = "eval") => UNCHANGED <<n, steps, trained>> \/ act'.op = "restart"]_vars
Obs == [m |-> m, in |-> in, k |-> k, eps |-> eps, n |-> n, steps |-> steps, tr |-> trained, sav |-> sav]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
View == <<m, in, k, eps, n, steps, trained, sav>>
=============================================================================
