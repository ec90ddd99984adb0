------------------------------- MODULE MC_Winds -------------------------------
(* Columns of small integer winds, level by level.                            *)
EXTENDS Winds, TLC, Json
CONSTANTS R, MaxLevels, Emit
VARIABLE col
W == { <<u, v>> : u, v \in (0 - R)..R }
Init == col = <<>>
Next == Len(col) < MaxLevels /\ \E w \in W : col' = Append(col, w)
Spec == Init /\ [][Next]_col
Exclusive == ~(Supports(col) /\ Lacks(col))
TurnedWinds == [i \in 1..Len(col) |-> <<0 - col[i][2], col[i][1]>>]
TurningChangesNothing == Supports(TurnedWinds) = Supports(col) /\ Lacks(TurnedWinds) = Lacks(col)
OppositeOfSupporting == Supports([i \in 1..Len(col) |-> <<0 - col[i][1], 0 - col[i][2]>>]) = Supports(col)
MoreWindsNeverHurt == [][Supports(col) => Supports(col')]_col
NeedsThree == Len(col) < 3 => ~Supports(col)
Sorted == \A i \in 1..(Len(col) - 1) : col[i][1] < col[i+1][1] \/ (col[i][1] = col[i+1][1] /\ col[i][2] < col[i+1][2])
Show == (Emit /\ Len(col) >= 3 /\ Sorted /\ ~OnOneLine(col)) => PrintT("COL " \o ToJson(col))
=============================================================================
