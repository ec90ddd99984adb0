------------------------------- MODULE MC_Eval ------------------------------
(* Every history of an evaluation over small suites.                         *)
EXTENDS Evaluation, TLC, Json
CONSTANTS Cfgs
VARIABLES cfg, pc, i, k, t, results, act
vars == <<cfg, pc, i, k, t, results, act>>
Causes == {"none", "oop", "burst", "zero"}
Init == cfg \in Cfgs /\ pc = AfterResult(cfg.n, 0) /\ i = 0 /\ k = 0 /\ t = FALSE /\ results = <<>> /\ act = [op |-> "init"]
Begin == pc = "seed" /\ pc' = "step" /\ k' = 0 /\ t' = FALSE /\ act' = [op |-> "begin"] /\ UNCHANGED <<cfg, i, results>>
Step(c) == /\ pc = "step" /\ pc' = "act" /\ k' = k + 1 /\ t' = (c # "none") /\ act' = [op |-> "step", c |-> c]
           /\ UNCHANGED <<cfg, i, results>>
Act == pc = "act" /\ pc' = AfterAct(cfg.l, k, t) /\ act' = [op |-> "act"] /\ UNCHANGED <<cfg, i, k, t, results>>
End == /\ pc = "end" /\ results' = Append(results, [seed |-> i + 1, final |-> k, t |-> t]) /\ i' = i + 1
       /\ pc' = AfterResult(cfg.n, i + 1) /\ act' = [op |-> "end"] /\ UNCHANGED <<cfg, k, t>>
Next == Begin \/ Act \/ End \/ \E c \in Causes : Step(c)
Spec == Init /\ [][Next]_vars
OneResultPerSeedInOrder == Len(results) = i /\ \A j \in 1..Len(results) : results[j].seed = j
WithinTheLimit == \A j \in 1..Len(results) : results[j].final \in 1..cfg.l
ShortOnlyIfTerminal == \A j \in 1..Len(results) : results[j].final < cfg.l => results[j].t
DoneMeansAll == pc = "done" => Len(results) = cfg.n
Obs == [cfg |-> cfg, pc |-> pc, i |-> i, k |-> k, t |-> t]
View == <<cfg, pc, i, k, t, results>>
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
CfgsQuick == {[n |-> 0, l |-> 1], [n |-> 1, l |-> 3], [n |-> 2, l |-> 2], [n |-> 3, l |-> 1]}
CfgsThorough == [n : 0..3, l : 1..4]
=============================================================================
