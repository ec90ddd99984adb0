------------------------------- MODULE T_Winds --------------------------------
(* Judges recorded answers about wind columns and wind fields.                *)
EXTENDS TraceKit, Winds
StartDef == 0
ColumnClauses(e) ==
  << Clause("answer-is-given", OnOneLine(e.col) \/ e.exc = "ok"),
     Clause("winds-to-all-sides-support-station-keeping", (e.exc = "ok" /\ Supports(e.col)) => e.yes),
     Clause("winds-to-one-side-do-not", (e.exc = "ok" /\ Lacks(e.col)) => ~e.yes) >>
FieldClauses(e) ==
  IF e.exc # "ok" THEN << Clause("speeds-are-computed", FALSE) >> ELSE
  LET n == Len(e.winds) IN
  << Clause("one-speed-per-point", Len(e.speeds) = n /\ e.dims = e.want),
     Clause("speed-is-the-length-of-the-wind", \A i \in 1..Min2(n, Len(e.speeds)) : FClose(e.speeds[i], Speed(e.winds[i]), "1e-5", "1e-6")),
     Clause("mean-speed", FClose(e.mean, FDiv(FSum([i \in 1..n |-> Speed(e.winds[i])]), n), "1e-4", "1e-5")) >>
JudgeDef(st, e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "column" -> ColumnClauses(e)
    [] e.op = "field" -> FieldClauses(e)
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(st, e) == st
=============================================================================
