--------------------------- MODULE T_StationSeeker --------------------------
(* Judges recorded decisions of the station-seeking controller.  mid is the  *)
(* balloon's level, lo..hi (from 0) the reachable ones, ws their winds.      *)
EXTENDS TraceKit, StationSeeker
StartDef == [x |-> 0]
Scores(e) == [i \in 1..Len(e.ws) |-> Score(e.ws[i], e.d, Abs(e.ls[i] - e.mid))]
RECURSIVE Best(_, _)
Best(q, k) == IF k = 0 THEN "-1" ELSE FMax(Best(q, k - 1), q[k])
Tol == "1e-6"

JudgeDef(st, e) ==
  CASE e.op = "choose" ->
         LET q == Scores(e)
             best == Best(q, Len(q))
             good == {i \in 1..Len(q) : FGe(q[i], FSub(best, Tol))} IN
         <<Clause("controller-never-fails", e.how = "ok"),
           Clause("commands-towards-a-best-level",
             e.how = "ok" => \E i \in good : e.a = Command(e.ls[i], e.mid)),
           Clause("best-level-is-a-reachable-one", e.level >= 0 => \E i \in 1..Len(q) : e.ls[i] = e.level),
           Clause("best-level-has-the-best-score", e.level >= 0 => \E i \in good : e.ls[i] = e.level),
           Clause("depends-on-the-observation-only", e.a = e.again)>>
         \o (IF Has(e, "scores") THEN
              <<Clause("scores-are-the-papers", e.how = "ok" =>
                 \A i \in 1..Len(q) : FClose(e.scores[i], q[i], "1e-6", "1e-7")),
                Clause("unreachable-levels-score-nothing", e.how = "ok" => FEq(e.rest, 0))>>
             ELSE <<>>)
    [] OTHER -> <<Clause("known-event", FALSE)>>
AfterDef(st, e) == st
=============================================================================
