---------------------------- MODULE T_Atmosphere ----------------------------
(* begin t10 (temperature at 10 km, identifies the sampled atmosphere)      *)
(* height h -> exc, t p rho h2 (height mapped back from that pressure)      *)
(* pressure p -> exc, t h rho p2                                            *)
(* ladder ps ts: pressures and temperatures at increasing heights hs        *)
(* same: answers of an atmosphere with the same key (a, b); other: another  *)
EXTENDS TraceKit, Atmosphere
StartDef == [alpha |-> 0]
Atm(st) == MakeAtmosphere(st.alpha)
\* A metre is about 0.012% of pressure; rounding must stay far below that.
HClose(a, b) == FClose(a, b, "1e-8", "1e-4")
JudgeDef(st, e) ==
  CASE e.ev = "begin" -> << Clause("lapse-rates-between-the-documented-profiles", Between(AlphaFrom(e.t10), "-1e-9", "1.000000001")) >>
    [] e.ev = "height" ->
         IF ~HeightInRange(e.h) THEN << Clause("height-outside-limits-refused", e.exc # "ok") >>
         ELSE IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE LET x == AtHeight(Atm(st), e.h) IN
           << Clause("temperature-at-height", FClose(e.t, x.t, "1e-9", "1e-9")),
              Clause("pressure-at-height", FClose(e.p, x.p, "1e-7", "1e-9")),
              Clause("gas-law-density", FClose(e.rho, Density(e.p, e.t), "1e-9", "0")),
              Clause("reports-the-height-asked", Close(e.hh, e.h)),
              Clause("height-pressure-height", ~Has(e, "h2") \/ HClose(e.h2, e.h)),
              Clause("same-temperature-both-ways", ~Has(e, "t2") \/ FClose(e.t2, e.t, "1e-8", "1e-6")) >>
    [] e.ev = "pressure" ->
         IF ~PressureInRange(Atm(st), e.p) THEN << Clause("pressure-outside-limits-refused", e.exc # "ok") >>
         ELSE IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE LET x == AtPressure(Atm(st), e.p) IN
           << Clause("temperature-at-pressure", FClose(e.t, x.t, "1e-8", "1e-6")),
              Clause("height-at-pressure", HClose(e.h, x.h)),
              Clause("gas-law-density", FClose(e.rho, Density(e.p, e.t), "1e-9", "0")),
              Clause("reports-the-pressure-asked", Close(e.pp, e.p)),
              Clause("pressure-height-pressure", ~Has(e, "p2") \/ FClose(e.p2, e.p, "1e-7", "1e-6")) >>
    [] e.ev = "ladder" ->
         << Clause("pressure-falls-with-height", \A i \in 1..(Len(e.ps) - 1) : FLt(e.ps[i + 1], e.ps[i])),
            Clause("density-positive", \A i \in 1..Len(e.rhos) : FGt(e.rhos[i], 0)),
            \* steepest lapse rate is 7 K/km
            Clause("temperature-continuous", \A i \in 1..(Len(e.ts) - 1) :
               FLe(FAbs(FSub(e.ts[i + 1], e.ts[i])), FAdd("1e-6", FMul("0.0071", FSub(e.hs[i + 1], e.hs[i]))))) >>
    [] e.ev = "same" -> << Clause("same-key-same-atmosphere", e.a = e.b) >>
    [] e.ev = "other" -> << Clause("other-key-other-atmosphere", e.a # e.b) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(st, e) == IF e.ev = "begin" THEN [alpha |-> AlphaFrom(e.t10)] ELSE st
=============================================================================
