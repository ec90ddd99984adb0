--------------------------- MODULE MC_StationSeeker -------------------------
(* Facts about the score over a grid of winds and distances.                 *)
EXTENDS StationSeeker, TLC
CONSTANT Steps
VARIABLES w, d, dist
Unit == {FDiv(i, Steps) : i \in 0..Steps}
Open == {FDiv(i, Steps) : i \in 0..(Steps - 1)}
Init == w \in [u : Unit, b : Unit, m : Open] /\ d \in Open /\ dist \in {0, 1, 50, 180}
Next == UNCHANGED <<w, d, dist>>
Spec == Init /\ [][Next]_<<w, d, dist>>
s == Score(w, d, dist)
Bounded == FLt(0, s) /\ FLe(s, FAdd(MaxScore, "1e-12"))
More(x) == FDiv(FAdd(FMul(x, Steps), 1), Steps)
BetterBearing == \A b \in Unit : FLt(b, w.b) => FGe(Score([w EXCEPT !.b = b], d, dist), s)
LessWind == \A m \in Open : FLt(m, w.m) => FGe(Score([w EXCEPT !.m = m], d, dist), s)
Nearer == dist > 0 => FGt(Score(w, d, dist - 1), s)
UnknownIsHalf == FEq(w.u, 1) => FLe(FAbs(FSub(s, FAdd("0.5", "0.05"))), "0.06")
=============================================================================
