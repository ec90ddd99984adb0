-------------------------------- MODULE Winds --------------------------------
(* A column of winds supports station keeping when winds blow to all sides:   *)
(* the calm (0, 0) lies inside the convex hull of the column.                 *)
EXTENDS Integers, Sequences, FloatOps
Cross(a, b) == FSub(FMul(a[1], b[2]), FMul(a[2], b[1]))
Dot2(a, b) == FAdd(FMul(a[1], b[1]), FMul(a[2], b[2]))
Calm(a) == FEq(a[1], 0) /\ FEq(a[2], 0)
\* Inside: no closed half-plane through the calm holds every wind.
Supports(col) ==
  /\ \E i \in 1..Len(col) : ~Calm(col[i])
  /\ \A i \in 1..Len(col) : Calm(col[i]) \/
       /\ \E j \in 1..Len(col) : FGt(Cross(col[i], col[j]), 0)
       /\ \E j \in 1..Len(col) : FLt(Cross(col[i], col[j]), 0)
\* Outside: some wind has all others on its left, none against it.
Lacks(col) ==
  \E i \in 1..Len(col) : \A j \in 1..Len(col) :
    FGt(Cross(col[i], col[j]), 0) \/ (FEq(Cross(col[i], col[j]), 0) /\ FGt(Dot2(col[i], col[j]), 0))
\* Winds on one line have no hull to speak of.
OnOneLine(col) == \A i, j, k \in 1..Len(col) :
  FEq(Cross(<<FSub(col[j][1], col[i][1]), FSub(col[j][2], col[i][2])>>, <<FSub(col[k][1], col[i][1]), FSub(col[k][2], col[i][2])>>), 0)
Speed(w) == FSqrt(FAdd(FMul(w[1], w[1]), FMul(w[2], w[2])))
=============================================================================
