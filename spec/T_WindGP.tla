------------------------------ MODULE T_WindGP ------------------------------
(* State: the observations made since the last reset.                       *)
(* begin; observe [x y p t u v fu fv] (measurement and forecast);           *)
(* query qs (points with their forecast) -> exc, res; reset                 *)
EXTENDS TraceKit, WindGP
StartDef == <<>>
ObsOf(e) == [x |-> e.x, y |-> e.y, p |-> e.p, t |-> e.t, eu |-> FSub(e.u, e.fu), ev |-> FSub(e.v, e.fv)]
JudgeDef(st, e) ==
  CASE e.ev \in {"begin", "reset"} -> <<>>
    [] e.ev = "kept" -> << Clause("answers-given-out-never-change", e.same) >>
    [] e.exc # "ok" -> << Clause("must-not-raise", FALSE) >>
    [] e.ev = "observe" -> <<>>
    [] e.ev = "query" ->
         LET x == Column(st, e.qs)
             n == Len(e.qs) IN
         << Clause("one-answer-per-query", Len(e.res) = n),
            Clause("eastward-estimate", \A i \in 1..n : FClose(e.res[i].u, x[i].u, "1e-7", "1e-7")),
            Clause("northward-estimate", \A i \in 1..n : FClose(e.res[i].v, x[i].v, "1e-7", "1e-7")),
            Clause("deviation", \A i \in 1..n : FClose(e.res[i].dev, x[i].dev, "1e-6", "1e-8")),
            Clause("deviation-in-unit-interval", \A i \in 1..n : Between(e.res[i].dev, 0, "1.00001")) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(st, e) ==
  CASE e.ev \in {"begin", "reset"} -> <<>>
    [] e.ev = "observe" -> IF e.exc = "ok" THEN Append(st, ObsOf(e)) ELSE st
    [] OTHER -> st
=============================================================================
