------------------------------- MODULE T_Solar ------------------------------
(* Stateless events; times are Unix seconds, angles degrees unless noted.   *)
(* sun: lat lng (radians) ts valid aware -> exc el az flux                  *)
(* attenuation, shadow, power                                               *)
(* next: noon midnight rise set around ts with resolution dt; steps         *)
EXTENDS TraceKit, Solar
StartDef == 0
DayS == 86400
Near(x, y, tol) == FLe(FAbs(FSub(x, y)), tol)
\* The refraction formula changes at these elevations.
Smooth(x) == \A k \in {"85", "5", "-0.575"} : FGt(FAbs(FSub(x.el0, k)), "1e-6")
El(e, ts) == SolarAt(e.lat, e.lng, ts).el
\* Rising (sign 1) or setting (-1) through the panel limit within tol of x.
Crosses(e, x, sign, tol) ==
  LET a == FSub(El(e, FSub(x, tol)), MinElevation)
      b == FSub(El(e, FAdd(x, tol)), MinElevation) IN
  IF sign = 1 THEN FLt(a, 0) /\ FGt(b, 0) ELSE FGt(a, 0) /\ FLt(b, 0)
\* One search step, plus the day-to-day change of sunrise when the event
\* just passed and tomorrow's is reported.
RiseTol(e) == FAdd(FAdd(e.dt, 60), IF FGt(FAbs(e.lat), "0.5") THEN 300 ELSE 60)
NoonTol(e) == FMul(FAdd(e.dt, 120), FDiv(PI, 43200))      \* radians of hour angle
Wrapped(a) == FMin(FAbs(a), FSub(FMul(2, PI), FAbs(a)))
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "sun" ->
         IF ~e.valid THEN << Clause("invalid-position-refused", e.exc # "ok") >>
         ELSE IF ~e.aware THEN << Clause("naive-time-refused", e.exc # "ok") >>
         ELSE IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE LET x == SolarAt(e.lat, e.lng, e.ts) IN
           << Clause("elevation", FFinite(e.el) /\ (Near(e.el, x.el, "1e-6") \/ (~Smooth(x) /\ Near(e.el, x.el, "0.01")))),
              Clause("elevation-in-range", Between(e.el, -90, "90.6")),
              Clause("azimuth", FLt(FCos(e.lat), "1e-3") \/ FGt(FAbs(x.el0), "89.9") \/
                       FLe(FAbs(FSub(180, FAbs(FSub(180, FAbs(FSub(e.az, x.az)))))), "2e-3")),
              Clause("azimuth-in-range", FGt(FAbs(x.el0), "89.9") \/ Between(e.az, 0, 360)),
              Clause("flux", FClose(e.flux, x.flux, "1e-9", 0)) >>
    [] e.ev = "attenuation" ->
         IF ~(Between(e.el, -90, 90) /\ Between(e.p, 0, 101325)) THEN << Clause("attenuation-domain-refused", e.exc # "ok") >>
         ELSE << Clause("attenuation", e.exc = "ok" /\ CloseA(e.val, Attenuation(e.el, e.p), "1e-12")),
                 Clause("attenuation-in-unit-interval", e.exc # "ok" \/ Between(e.val, 0, 1)) >>
    [] e.ev = "shadow" -> << Clause("shadow", e.exc = "ok" /\ Close(e.val, Shadow(e.el, e.h))) >>
    [] e.ev = "power" ->
         IF ~(Between(e.el, -90, 90) /\ Between(e.p, 0, 101325)) THEN << Clause("power-domain-refused", e.exc # "ok") >>
         ELSE << Clause("solar-power", e.exc = "ok" /\ CloseA(e.val, SolarPower(e.el, e.p), "1e-9")),
                 Clause("power-not-negative-and-capped", e.exc # "ok" \/ Between(e.val, 0, 1260)),
                 Clause("no-power-below-the-limit", e.exc # "ok" \/ FGe(e.el, MinElevation) \/ FEq(e.val, 0)) >>
    [] e.ev = "monotone" ->   \* lower pressure, more light
         << Clause("more-light-higher-up", \A i \in 1..(Len(e.vals) - 1) : FGe(e.vals[i + 1], e.vals[i])) >>
    [] e.ev = "next" ->
         IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE LET day == IsDay(El(e, e.ts))
                  noon == SolarAt(e.lat, e.lng, e.noon)
                  mid == SolarAt(e.lat, e.lng, e.midnight) IN
         << Clause("noon-in-the-coming-day", Between(e.noon, e.ts, FAdd(e.ts, DayS + 300))),
            Clause("midnight-in-the-coming-day", Between(e.midnight, e.ts, FAdd(e.ts, DayS + 300))),
            Clause("noon-is-culmination", FLe(FAbs(noon.ha), NoonTol(e))),
            Clause("midnight-is-lowest", FLe(FSub(PI, FAbs(mid.ha)), NoonTol(e))),
            Clause("elevation-at-noon-and-midnight", Near(e.noonEl, noon.el, "0.01") /\ Near(e.midEl, mid.el, "0.01")),
            Clause("sunrise-in-the-coming-day", Between(e.rise, e.ts, FAdd(e.ts, DayS))),
            Clause("sunset-in-the-coming-day", Between(e.set, e.ts, FAdd(e.ts, DayS))),
            Clause("sun-rises-at-sunrise", Crosses(e, e.rise, 1, RiseTol(e))),
            Clause("sun-sets-at-sunset", Crosses(e, e.set, -1, RiseTol(e))),
            \* by day the sunset comes first, by night the sunrise (away from the instants themselves)
            Clause("sunset-first-by-day",
              IsDay(El(e, FSub(e.ts, RiseTol(e)))) # day \/ IsDay(El(e, FAdd(e.ts, RiseTol(e)))) # day \/
              (day <=> FLt(e.set, e.rise))),
            Clause("afternoon-flag", FLt(Wrapped(SolarAt(e.lat, e.lng, e.ts).ha), "0.02") \/
              FGt(Wrapped(SolarAt(e.lat, e.lng, e.ts).ha), "3.12") \/ (e.afternoon <=> FGt(SolarAt(e.lat, e.lng, e.ts).ha, 0))),
            Clause("no-steps-by-day", ~day \/ e.steps = 0),
            Clause("steps-to-sunrise", day \/ (FGe(FMul(e.steps, e.dt), FSub(e.rise, e.ts)) /\ FLt(FMul(e.steps - 1, e.dt), FSub(e.rise, e.ts)))) >>
    \* The declination moves the highest sun by at most 0.0024 rad of hour angle (34 s) at 60 degrees.
    [] e.ev = "afternoon" ->
         IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE LET ha == Wrapped(SolarAt(e.lat, e.lng, e.ts).ha) IN
           << Clause("afternoon-from-noon-to-midnight", FLt(ha, "0.003") \/ FGt(ha, "3.1385") \/
                (e.val <=> FGt(SolarAt(e.lat, e.lng, e.ts).ha, 0))) >>
    [] e.ev = "polar" -> << Clause("high-latitudes-refused", e.exc # "ok") >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) == s
=============================================================================
