------------------------------- MODULE Units --------------------------------
(* Dimensional algebra.  Kinds: D distance (m), V velocity (m/s), E energy  *)
(* (Wh), P power (W), T time span (s), N number, X anything else.           *)
(* ResultKind is the kind of the result, "no" when the operation must be    *)
(* refused, and is prefixed with "?" when the library may leave a meaningful *)
(* combination out (it must then refuse it; otherwise the value is judged).  *)
EXTENDS Sequences, FloatOps
Like == {"D", "V", "E", "P"}
ResultKind(op, l, r) ==
  CASE op \in {"add", "sub"} /\ l = r /\ l \in Like -> l
    [] op = "mul" /\ <<l, r>> \in {<<"D", "N">>, <<"N", "D">>} -> "D"
    [] op = "mul" /\ <<l, r>> \in {<<"E", "N">>, <<"N", "E">>} -> "E"
    [] op = "mul" /\ <<l, r>> \in {<<"V", "T">>, <<"T", "V">>} -> "D"
    [] op = "mul" /\ <<l, r>> \in {<<"P", "T">>, <<"T", "P">>} -> "E"
    [] op = "mul" /\ <<l, r>> \in {<<"V", "N">>, <<"N", "V">>} -> "?V"
    [] op = "mul" /\ <<l, r>> \in {<<"P", "N">>, <<"N", "P">>} -> "?P"
    [] op = "div" /\ <<l, r>> = <<"D", "N">> -> "D"
    [] op = "div" /\ <<l, r>> = <<"D", "T">> -> "V"
    [] op = "div" /\ <<l, r>> = <<"D", "D">> -> "N"
    [] op = "div" /\ <<l, r>> = <<"V", "N">> -> "V"
    [] op = "div" /\ <<l, r>> = <<"E", "E">> -> "N"
    [] op = "div" /\ <<l, r>> \in {<<"V", "V">>, <<"P", "P">>} -> "?N"
    [] op = "div" /\ <<l, r>> = <<"E", "N">> -> "?E"
    [] op = "div" /\ <<l, r>> = <<"P", "N">> -> "?P"
    [] op = "div" /\ <<l, r>> = <<"E", "T">> -> "?P"
    [] op = "div" /\ <<l, r>> \in {<<"D", "V">>, <<"E", "P">>} -> "?T"
    [] op \in {"eq", "ne"} /\ l = r /\ l \in Like -> "B"
    [] op \in {"lt", "le", "gt", "ge"} /\ l = r /\ l \in {"D", "E"} -> "B"
    [] op \in {"lt", "gt"} /\ <<l, r>> = <<"P", "P">> -> "B"
    [] op \in {"le", "ge"} /\ <<l, r>> = <<"P", "P">> -> "?B"
    [] op \in {"lt", "le", "gt", "ge"} /\ <<l, r>> = <<"V", "V">> -> "?B"
    [] OTHER -> "no"
Optional(k) == k \in {"?V", "?P", "?N", "?E", "?T", "?B"}
Bare(k) == CASE k = "?V" -> "V" [] k = "?P" -> "P" [] k = "?N" -> "N" [] k = "?E" -> "E" [] k = "?T" -> "T" [] k = "?B" -> "B" [] OTHER -> k
\* Energy is counted in watt hours, time in seconds.
Value(op, l, r, x, y) ==
  LET raw == CASE op = "add" -> FAdd(x, y) [] op = "sub" -> FSub(x, y) [] op = "mul" -> FMul(x, y) [] OTHER -> FDiv(x, y)
  IN CASE op = "mul" /\ {l, r} = {"P", "T"} -> FDiv(raw, 3600)
       [] op = "div" /\ <<l, r>> \in {<<"E", "T">>, <<"E", "P">>} -> FMul(raw, 3600)
       [] OTHER -> raw
\* Distances and velocities within 1e-9 are considered equal.
Same(k, x, y) == IF k \in {"D", "V"} THEN FLt(FAbs(FSub(x, y)), "1e-9") ELSE FEq(x, y)
Holds(op, k, x, y) ==
  CASE op = "eq" -> Same(k, x, y) [] op = "ne" -> ~Same(k, x, y)
    [] op = "lt" -> FLt(x, y) [] op = "le" -> FLe(x, y) [] op = "gt" -> FGt(x, y) [] OTHER -> FGe(x, y)
DivByZero(op, y) == op = "div" /\ FEq(y, 0)
Foot == "0.3048"
=============================================================================
