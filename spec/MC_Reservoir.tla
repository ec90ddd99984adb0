---------------------------- MODULE MC_Reservoir -----------------------------
(* One training run over a reservoir: any order of batches and evaluations.  *)
EXTENDS Reservoir, TLC, Json
CONSTANTS MaxN, MaxOps
VARIABLES n, held, trained, evaluated, k
vars == <<n, held, trained, evaluated, k>>
Init == n \in 1..MaxN /\ held \in 0..MaxN /\ held <= n /\ trained = {} /\ evaluated = {} /\ k = 0
Batch(s) == /\ k < MaxOps /\ s <= n - held
            /\ \E b \in [1..s -> TrainPart(n, held)] : IsTrainBatch(b, n, held, s) /\ trained' = trained \cup Rows(b)
            /\ k' = k + 1 /\ UNCHANGED <<n, held, evaluated>>
Eval == /\ k < MaxOps /\ evaluated' = evaluated \cup Rows(EvalBatch(n, held)) /\ k' = k + 1 /\ UNCHANGED <<n, held, trained>>
Next == (\E s \in 1..2 : Batch(s)) \/ Eval
Spec == Init /\ [][Next]_vars
NeverTrainsOnEvaluationFields == trained \cap Rows(EvalBatch(n, held)) = {}
EverythingIsUsable == TrainPart(n, held) \cup Rows(EvalBatch(n, held)) = 0..(n - 1)
EvaluationIsTheSameEveryTime == evaluated \in {{}, Rows(EvalBatch(n, held))}
\* histories to replay: sizes relative to what is there
Abs == [n |-> n, held |-> held, k |-> k]
AbsN == [n |-> n, held |-> held, k |-> k']
EmitInit == k = 0 => PrintT("INIT " \o ToJson(Abs))
Edge(a) == PrintT("EDGE " \o ToJson([f |-> Abs, a |-> a, t |-> AbsN]))
NextE == (\E s \in 1..2 : Batch(s) /\ Edge([op |-> "batch", s |-> s])) \/ (Eval /\ Edge([op |-> "eval"]))
SpecE == Init /\ [][NextE]_vars
View == <<n, held, k, trained = {}, evaluated = {}>>
=============================================================================
