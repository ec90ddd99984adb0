----------------------------- MODULE Evaluation -----------------------------
(* Evaluating an agent on a suite: one episode per seed, in suite order; the *)
(* accounting of an episode is a function of its steps.                      *)
EXTENDS Integers, Sequences, FloatOps

\* pc: seed -> reset -> begin -> step -> act -> (step | end) -> seed ... done
AfterResult(n, i) == IF i < n THEN "seed" ELSE "done"
AfterAct(l, k, t) == IF t \/ k >= l THEN "end" ELSE "step"

Within(s, radiusKm) == FLe(FHypot(s.x, s.y), radiusKm)
Account(seed, steps, radiusKm, withPath) ==
  LET last == steps[Len(steps)] IN
  [seed |-> seed,
   reward |-> FSum([i \in 1..Len(steps) |-> steps[i].r]),
   twr |-> FDiv(Len(SelectSeq(steps, LAMBDA s : Within(s, radiusKm))), Len(steps)),
   oop |-> last.t /\ last.oop, burst |-> last.t /\ last.burst, zero |-> last.t /\ last.zero,
   final |-> Len(steps),
   path |-> IF withPath THEN steps ELSE <<>>]

\* The seeds of shard i of k (counting from 0) of a suite of n: positions
\* ShardLo+1 .. ShardHi.
ShardLo(n, i, k) == (n * i) \div k
ShardHi(n, i, k) == (n * (i + 1)) \div k
=============================================================================
