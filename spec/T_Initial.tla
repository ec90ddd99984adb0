----------------------------- MODULE T_Initial ------------------------------
(* Judges the starts of episodes and the samplers.                          *)
(* State: what each seed gave, and how often each piece of each law came up. *)
(* begin; reset [seed k s last t10]; sample [what arg exc v lo hi];          *)
(* draw [q] (values counted towards the laws); infrared; settle              *)
EXTENDS TraceKit, Initial
StartDef == [seen |-> <<>>, counts |-> NoCounts, fine |-> NoFine, pairs |-> NoPairs, both |-> NoPairs]
AtmOf(e) == MakeAtmosphere(AlphaFrom(e.t10))
Told(e) == <<e.s.x, e.s.y, e.k.lat, e.k.lng, e.s.ts, e.s.p, e.k.ir, e.t10>>
Same(st, key, v) == key \notin DOMAIN st.seen \/ st.seen[key] = v
Learn(st, key, v) == IF key \in DOMAIN st.seen THEN st.seen
                     ELSE [j \in DOMAIN st.seen \union {key} |-> IF j = key THEN v ELSE st.seen[j]]

ResetClauses(st, e) ==
  LET f == FloatAt(e.k, e.s.mhe, SunOf(e.k, e.s), AtmOf(e), e.s.p)
      floor == FloorPressure(AtmOf(e)) IN
  << Clause("within-200-km", FLe(FHypot(e.s.x, e.s.y), FAdd(MaxRadius, "0.05"))),
     Clause("place-in-range", PlaceOk(e.k)),
     Clause("time-in-the-sampling-interval", TimeIn(e.s.ts, FirstTime, LastTime)),
     Clause("pressure-navigable", PressureIn(e.s.p, floor)),
     Clause("infrared-at-least-the-minimum", InfraredOk(e.k.ir)),
     Clause("no-time-elapsed", FEq(e.s.el, 0)),
     Clause("status-ok", e.s.status = "OK"),
     Clause("no-command-yet", e.last = "STAY"),
     Clause("power-safety-on", e.guarded),
     Clause("navigation-not-paused", ~e.paused),
     Clause("battery-nearly-full", FClose(e.s.charge, FullBattery, "1e-9", 0)),
     Clause("altitude-control-idle", FEq(e.s.acsw, 0) /\ FEq(e.s.flow, 0)),
     Clause("standard-vehicle", /\ FEq(e.k.v0, 1804) /\ FEq(e.k.dv, "0.0199") /\ FEq(e.k.menv, "68.5")
                                /\ FEq(e.k.mpay, "92.5") /\ FEq(e.k.spmax, 2380) /\ FEq(e.k.cap, "3058.56")
                                /\ FEq(e.s.mhe, 6830) /\ FEq(e.k.cod, "0.25") /\ FEq(e.k.valve, "0.04")
                                /\ FEq(e.k.nload, "183.7") /\ FEq(e.k.dload, "120.4")),
     Clause("thermally-stable", /\ FClose(e.s.ta, f.ta, "1e-9", 0) /\ FClose(e.s.ti, f.ti, "1e-9", "1e-6")
                                /\ FClose(e.s.mair, f.mair, "1e-9", "1e-6") /\ FClose(e.s.vol, f.vol, "1e-9", "1e-6")
                                /\ FClose(e.s.sp, f.sp, "1e-7", "1e-4")),
     Clause("positively-pressurised", FGt(e.s.sp, 0) /\ FLt(e.s.sp, e.k.spmax)),
     Clause("lapse-rates-in-range", Between(AlphaFrom(e.t10), "-1e-6", "1.000001")),
     Clause("same-seed-same-start", Same(st, e.seed, Told(e))) >>

\* samplers called directly
SampleClauses(st, e) ==
  IF ~e.legal THEN << Clause("invalid-distribution-refused", e.exc = "ValueError") >>
  ELSE IF e.exc # "ok" THEN << Clause("sampler-must-not-raise", FALSE) >>
  ELSE << Clause("same-key-same-sample", Same(st, e.seed, e.v)),
          CASE e.what = "place" -> Clause("sampled-place-in-range", PlaceOk([lat |-> e.v[1], lng |-> e.v[2]]))
            [] e.what = "time" -> Clause("sampled-time-in-interval", TimeIn(e.v, e.lo, e.hi) /\ FEq(FMod(FSub(e.v, e.lo), 1), 0))
            [] e.what = "pressure" -> Clause("sampled-pressure-in-range",
                  PressureIn(e.v, IF e.t10 = "None" THEN SafePressure ELSE FloorPressure(AtmOf(e))))
            [] e.what = "infrared" -> Clause("sampled-infrared-in-range", InfraredOk(e.v))
            [] OTHER -> Clause("known-sampler", FALSE) >>

RECURSIVE ToList(_)
ToList(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE y \in s : TRUE IN <<x>> \o ToList(s \ {x})
SettleClauses(st) ==
  [i \in 1..Cardinality(Names) |-> LET q == ToList(Names)[i] IN Clause("law-of-" \o q, Follows(st.counts[q]))] \o
  [i \in 1..Cardinality(Names) |-> LET q == ToList(Names)[i] IN Clause("shares-of-" \o q, Shares(st.counts[q]))] \o
  [i \in 1..Cardinality(DOMAIN Ranges) |-> LET q == ToList(DOMAIN Ranges)[i] IN Clause("no-gap-in-" \o q, NoGap(st.fine[q]))] \o
  [i \in 1..Cardinality(Pairs) |-> LET pr == ToList(Pairs)[i] IN
      Clause("independent-" \o pr[1] \o "-" \o pr[2], Independent(st.pairs[pr], st.both[pr]))]

JudgeDef(st, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "reset" -> IF e.exc = "ok" THEN ResetClauses(st, e) ELSE << Clause("reset-must-not-raise", FALSE) >>
    [] e.ev = "sample" -> SampleClauses(st, e)
    [] e.ev = "draw" -> <<>>
    [] e.ev = "settle" -> SettleClauses(st)
    \* different seeds give different infrared values, and not one value almost always
    [] e.ev = "infrared" -> << Clause("infrared-varies", e.distinct * 200 >= e.n) >>
    [] e.ev = "spread" -> << Clause("infrared-is-not-almost-constant", e.top * 2 <= e.n) >>
    [] OTHER -> << Clause("known-event", FALSE) >>

AfterDef(st, e) ==
  CASE e.ev = "begin" -> StartDef
    [] e.ev = "reset" -> IF e.exc = "ok" THEN [st EXCEPT !.seen = Learn(st, e.seed, Told(e))] ELSE st
    [] e.ev = "sample" -> IF e.exc = "ok" THEN [st EXCEPT !.seen = Learn(st, e.seed, e.v)] ELSE st
    [] e.ev = "draw" -> [st EXCEPT !.counts = Count(@, e.q), !.fine = CountFine(@, e.q), !.pairs = CountPairs(@, e.q),
                                   !.both = [pr \in Pairs |-> IF pr[1] \in DOMAIN e.q /\ pr[2] \in DOMAIN e.q
                                                                THEN @[pr] + 1 ELSE @[pr]]]
    [] OTHER -> st
=============================================================================
