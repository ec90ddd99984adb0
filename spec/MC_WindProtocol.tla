-------------------------- MODULE MC_WindProtocol --------------------------
(* Two wind fields of the same kind, each unset or set with one of two      *)
(* keys; every interleaving of resets and queries at two points.            *)
EXTENDS Integers, Sequences, TLC, Json
VARIABLES w
Insts == {1, 2}
Keys == {"a", "b"}
Ops == {"forecast", "column", "truth"}
Pts == {1, 2}
Init == w = [i \in Insts |-> "none"]
Reset(i, k) == w' = [w EXCEPT ![i] = k]
Query(i, op, p) == UNCHANGED w
\* The abstract answer: unset fields refuse the truth; set ones answer as a
\* function of the key, the kind of query and the point alone.
Answer(i, op, p) == IF w[i] = "none" THEN <<"refused", op, p>> ELSE <<w[i], op, p>>
Do(a) ==
  /\ IF a.op = "reset" THEN Reset(a.i, a.k) ELSE Query(a.i, a.op, a.p)
  /\ PrintT("EDGE " \o ToJson([f |-> w, a |-> a, t |-> w']))
Acts == [op : {"reset"}, i : Insts, k : Keys] \cup [op : Ops, i : Insts, p : Pts]
Next == \E a \in Acts : Do(a)
Spec == (Init /\ PrintT("INIT " \o ToJson(w))) /\ [][Next]_w
\* Querying never matters: two fields with the same key always answer alike.
SameKeySameAnswer ==
  \A op \in Ops, p \in Pts : w[1] = w[2] => Answer(1, op, p) = Answer(2, op, p)
OtherKeyOtherAnswer ==
  \A op \in Ops, p \in Pts : w[1] # w[2] => Answer(1, op, p) # Answer(2, op, p)
=============================================================================
