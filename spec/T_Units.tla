------------------------------- MODULE T_Units ------------------------------
(* op: op l r (kinds) x y (values) -> exc, k, v (or b for comparisons)      *)
(* make: a value built from mixed units and everything it reports           *)
(* helper functions of units.py                                             *)
EXTENDS TraceKit, Units
StartDef == 0
Rel(a, b) == FClose(a, b, "1e-12", "1e-300")
Judged(e, want) ==
  LET k == Bare(want) IN
  IF k = "B" THEN << Clause("comparison", e.k = "B" /\ (e.k = "B" => (e.b <=> Holds(e.op, e.l, e.x, e.y)))) >>
  ELSE << Clause("result-kind", e.k = k),
          Clause("result-value", FClose(e.v, Value(e.op, e.l, e.r, e.x, e.y), "1e-12", "1e-6") /\
                    (k = "T" \/ FClose(e.v, Value(e.op, e.l, e.r, e.x, e.y), "1e-12", "1e-15"))) >>
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "op" ->
         LET want == ResultKind(e.op, e.l, e.r) IN
         (IF want = "no" THEN << Clause("nonsense-refused", e.exc # "ok") >>
          ELSE IF e.exc # "ok" THEN << Clause("operation-available", Optional(want) \/ DivByZero(e.op, e.y)) >>
          ELSE IF DivByZero(e.op, e.y) THEN << Clause("division-by-zero-refused", ~FFinite(e.v)) >>
          ELSE Judged(e, want))
         \o << Clause("operands-unchanged", e.kept) >>
    [] e.ev = "distance" ->
         LET m == FAdd(FAdd(e.m, e.meters), FAdd(FMul(1000, FAdd(e.km, e.kilometers)), FMul(e.feet, Foot))) IN
         << Clause("distance-units", FClose(e.out[1], m, "1e-12", "1e-9") /\ Rel(e.out[2], e.out[1]) /\
              Rel(e.out[3], FDiv(e.out[1], 1000)) /\ Rel(e.out[4], e.out[3]) /\ FClose(e.out[5], FDiv(e.out[1], Foot), "1e-12", "1e-12")) >>
    [] e.ev = "velocity" ->
         LET v == FAdd(FAdd(e.mps, e.meters), FDiv(FAdd(e.kmph, e.kilometers), "3.6")) IN
         << Clause("velocity-units", FClose(e.out[1], v, "1e-12", "1e-9") /\ Rel(e.out[2], e.out[1]) /\
              Rel(e.out[3], FMul(e.out[1], "3.6")) /\ Rel(e.out[4], e.out[3])),
            Clause("velocity-text", e.textOk) >>
    [] e.ev = "energy" -> << Clause("energy-units", Rel(e.out, e.wh)) >>
    [] e.ev = "power" -> << Clause("power-units", Rel(e.out, e.w)) >>
    [] e.ev = "degrees" -> << Clause("distance-to-degrees", Close(e.out, FDiv(e.km, 111))) >>
    [] e.ev = "norm" -> << Clause("relative-distance", Close(e.out, FHypot(e.x, e.y))) >>
    [] e.ev = "hours" -> << Clause("hours", Close(e.a, FDiv(e.s, 3600)) /\ Close(e.b, FDiv(e.s, 3600))) >>
    [] e.ev = "datetime" -> << Clause("datetime-accepted", e.exc = "ok"),
                               Clause("datetime-defaults-to-utc", e.exc # "ok" \/ (e.aware /\ FEq(e.out, e.ts))),
                               Clause("datetime-fields", e.exc # "ok" \/ e.fields = e.asked) >>
    [] e.ev = "badtime" -> << Clause("impossible-date-refused", e.exc # "ok") >>
    [] e.ev = "stamp" -> << Clause("datetime-from-timestamp", e.aware /\ FEq(e.out, e.ts) /\ e.utc) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) == s
=============================================================================
