------------------------------ MODULE Reservoir ------------------------------
(* A data set of wind fields: the last ones are kept for evaluation, training *)
(* batches are drawn without replacement from the others.  Fields are known   *)
(* by their position, from 0.                                                 *)
EXTENDS Integers, Sequences, FiniteSets
TrainPart(n, held) == 0..(n - held - 1)
EvalBatch(n, held) == [i \in 1..held |-> n - held + i - 1]
Rows(b) == { b[i] : i \in 1..Len(b) }
IsTrainBatch(b, n, held, size) ==
  /\ Len(b) = size
  /\ Cardinality(Rows(b)) = size          \* nothing twice
  /\ Rows(b) \subseteq TrainPart(n, held)
\* The shards of a data set follow one another.
RECURSIVE Concat(_)
Concat(shards) == IF shards = <<>> THEN <<>> ELSE Head(shards) \o Concat(Tail(shards))
=============================================================================
