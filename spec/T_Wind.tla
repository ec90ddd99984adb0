------------------------------- MODULE T_Wind -------------------------------
(* begin [kind, shape]                                                      *)
(* reset i k; forecast|column|truth i pt x y p(s) t -> exc, res (pairs)     *)
(*   truth carries noise (an independent noise model with the same key)     *)
(*   grid forecasts carry the cell: corner c and its 16 values uu, vv       *)
(* harmonics which k x y p t value at base: decomposition of the noise      *)
(* State: kind, the key of every field, and every answer given so far.      *)
EXTENDS TraceKit, WindField
StartDef == [kind |-> "", w |-> [i \in {1, 2} |-> "none"], seen |-> << >>, shape |-> << >>]
QKey(st, e) == <<st.w[e.i], e.op, e.pt>>
Needs(st, e) == e.op = "truth" \/ st.kind # "static"
Tol == "2e-3"
OkForecast(st, e, j) ==
  LET r == e.res[j] IN
  IF st.kind = "static" THEN FEq(r[1], StaticWind(e.ps[j])[1]) /\ FEq(r[2], StaticWind(e.ps[j])[2])
  ELSE IF Has(e, "cells") THEN
    LET q == GridPoint(st.shape, e.x, e.y, e.ps[j], e.t)
        c == e.cells[j] IN
    /\ InCell(st.shape, c.c, q)
    /\ CloseA(r[1], Interpolate(st.shape, c.c, q, c.uu), Tol)
    /\ CloseA(r[2], Interpolate(st.shape, c.c, q, c.vv), Tol)
  ELSE TRUE
Bounded(st, e, j) ==
  IF ~Has(e, "lim") THEN TRUE
  ELSE Between(e.res[j][1], FSub(e.lim[1], "1e-4"), FAdd(e.lim[2], "1e-4"))
    /\ Between(e.res[j][2], FSub(e.lim[3], "1e-4"), FAdd(e.lim[4], "1e-4"))
JudgeQuery(st, e) ==
  IF st.w[e.i] = "none" /\ Needs(st, e) THEN << Clause("refuses-before-reset", e.exc # "ok") >>
  ELSE IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
  ELSE
  << Clause("one-answer-per-pressure", Len(e.res) = Len(e.ps)),
     Clause("forecast-value", e.op = "truth" \/ \A j \in 1..Len(e.ps) : OkForecast(st, e, j)),
     Clause("bounded-by-the-stored-extremes", e.op = "truth" \/ \A j \in 1..Len(e.ps) : Bounded(st, e, j)),
     Clause("truth-is-forecast-plus-noise",
            e.op # "truth" \/
            \A a \in {1, 2} : CloseA(e.res[1][a], FAdd(e.fc[a], e.noise[a]), "1e-5")),
     Clause("same-key-same-answer",
            \A k \in 1..Len(st.seen) : st.seen[k][1] = QKey(st, e) => st.seen[k][2] = e.res),
     Clause("column-equals-points",
            e.op # "column" \/ \A j \in 1..Len(e.ps) : \A a \in {1, 2} : CloseA(e.res[j][a], e.points[j][a], "1e-6")),
     Clause("other-key-other-noise",
            e.op # "truth" \/
            \A k \in 1..Len(st.seen) :
              (st.seen[k][1][1] # st.w[e.i] /\ st.seen[k][1][2] = "truth" /\ st.seen[k][1][3] = e.pt) =>
                st.seen[k][2] # e.res) >>
JudgeDef(st, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "reset" -> << Clause("reset-accepted", e.exc = "ok") >>
    [] e.ev = "query" -> JudgeQuery(st, e)
    [] e.ev = "harmonics" ->
         << Clause("harmonic-spacings", \A i \in 1..5 : \A a \in 1..4 :
                     Close(e.at[i][a], Scaled(e.which, i, e.x, e.y, e.p, e.t)[a])),
            Clause("noise-value", CloseA(e.value, ComponentNoise(e.which, e.base), "1e-6")) >>
    [] e.ev = "variance" ->
         \* documented: the noise is scaled to a variance of about one
         << Clause("noise-variance", Between(FDiv(FDot(e.xs, e.xs), Len(e.xs)), "0.6", "1.6")),
            Clause("components-independent",
                   FLt(FAbs(FDiv(FDot(e.xs, e.ys), FSqrt(FMul(FDot(e.xs, e.xs), FDot(e.ys, e.ys))))), "0.5")) >>
    [] e.ev = "add" -> << Clause("vector-sum", IF e.valid THEN e.exc = "ok" /\ Close(e.res[1], FAdd(e.a[1], e.b[1])) /\ Close(e.res[2], FAdd(e.a[2], e.b[2]))
                                              ELSE e.exc # "ok") >>
    [] e.ev = "kept" -> << Clause("answers-given-out-never-change", e.same) >>
    [] e.ev = "unset" -> << Clause("refuses-before-reset", e.exc # "ok") >>
    [] e.ev = "pair" -> << Clause("both-implementations-agree", \A j \in 1..Len(e.a) : \A k \in {1, 2} : CloseA(e.a[j][k], e.b[j][k], "1e-5")) >>
    [] e.ev = "field" ->
         \* axes: evenly spaced nodes from the first to the last grid value
         LET lo == << FNeg(st.shape.km), st.shape.pmin, 0 >>
             hi == << st.shape.km, st.shape.pmax, st.shape.hours >>
             n  == << st.shape.n, st.shape.np, st.shape.nt >> IN
         << Clause("field-has-the-grid-shape", e.shape = e.grid /\ e.grid = << n[1], n[1], n[2], n[3], 2 >>),
            Clause("field-finite-and-not-constant", e.finite /\ FGt(e.spread, "1e-6")),
            Clause("even-grid-axes", \A a \in 1..3 :
               Len(e.axes[a]) = n[a] /\ \A i \in 1..n[a] :
                 FClose(e.axes[a][i], FAdd(lo[a], FDiv(FMul(FSub(hi[a], lo[a]), i - 1), n[a] - 1)), "1e-6", "1e-3")) >>
    [] e.ev = "div" ->
         << Clause("generated-wind-is-incompressible",
              FClose(FSub(e.du[1], e.du[2]), FSub(e.dv[2], e.dv[1]), "1e-4", "1e-5")) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(st, e) ==
  CASE e.ev = "begin" -> [StartDef EXCEPT !.kind = e.kind, !.shape = e.shape]
    [] e.ev = "reset" -> [st EXCEPT !.w[e.i] = e.k]
    [] e.ev = "query" ->
         IF e.exc # "ok" THEN st
         ELSE IF \E k \in 1..Len(st.seen) : st.seen[k][1] = QKey(st, e) THEN st
         ELSE [st EXCEPT !.seen = Append(@, <<QKey(st, e), e.res>>)]
    [] OTHER -> st
=============================================================================
