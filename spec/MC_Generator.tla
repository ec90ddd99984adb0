---------------------------- MODULE MC_Generator ----------------------------
(* The curl of every stream function with at most Bumps unit bumps, built up *)
(* bump by bump, is incompressible at every interior point; and enlargement  *)
(* keeps every value between those it lies between and keeps constants.      *)
EXTENDS Generator, FiniteSets, TLC
CONSTANTS N, Bumps, W
VARIABLE bumps
All == (1..(N + 2)) \X (1..(N + 2))
Init == bumps = {}
Next == \E b \in All \ bumps : Cardinality(bumps) < Bumps /\ bumps' = bumps \cup {b}
Spec == Init /\ [][Next]_bumps
P(i, j) == IF <<i, j>> \in bumps THEN 1 ELSE 0
U(i, j) == CurlU(P, i, j)
V(i, j) == CurlV(P, i, j)
Incompressible == \A i, j \in 2..(N - 1) : FEq(Divergence(U, V, i, j), 0)
TransportsSomething == bumps # {} => \E i, j \in 1..N : ~FEq(U(i, j), 0) \/ ~FEq(V(i, j), 0) \/ bumps \subseteq
   {b \in All : b[1] \in {1, N + 2} /\ b[2] \in {1, N + 2}} \/ Cardinality(bumps) > 1
\* bumps inside 1..W are the coarse field
Coarse(r, c) == IF <<r, c>> \in bumps THEN 1 ELSE 0
Enlarged == \A i, j \in 1..(N + 2) : LET x == Psi(Coarse, W, N + 2, i, j) IN FLe(0, x) /\ FLe(x, 1)
Symmetric == \A i \in 1..(N + 2) : LET a == Sample(W, N + 2, i)  b == Sample(W, N + 2, N + 3 - i) IN
   /\ FClose(FAdd(FAdd(a.a, FMul(FSub(a.b, a.a), a.f)), FAdd(b.a, FMul(FSub(b.b, b.a), b.f))), W + 1, "1e-9", "1e-9")
   /\ a.a \in 1..W /\ a.b \in 1..W
=============================================================================
