------------------------------ MODULE T_Flight ------------------------------
(* Judges recorded flights of one balloon (or of one environment).          *)
(* begin: k (vehicle), s (state), t10 (temperature at 10 km), rise, set     *)
(*        (Unix seconds), power (layer enabled), pow (latch)                *)
(* sim:   cmd u v n -> exc s last paused soc   (n substeps of ten seconds)  *)
(* env:   cmd u v -> exc s last paused soc terminal flags elapsed u2 v2     *)
(* sim and env events with n > 1 carry subs, see SpecNext.                  *)
(* poke:  k s: the state was replaced from outside                          *)
(* refused: a step after a terminal event -> exc s                          *)
(* FOCUS selects the clauses of one property.                               *)
EXTENDS TraceKit, Flight

Focus == IOEnv.FOCUS
Stopped == [on |-> FALSE]
StartDef == Stopped

Sub10 == 10
Begun(e) ==
  [on |-> TRUE, k |-> e.k, s |-> e.s, power |-> e.power,
   atm |-> MakeAtmosphere(AlphaFrom(e.t10)),
   lay |-> [alt |-> e.alt, env |-> e.env, pow |-> e.pow,
            riseH |-> FAdd(e.rise, 1800), set |-> e.set]]
NSub(e) == IF e.ev = "env" THEN 18 ELSE e.n
NewLay(st, e) == Layers(st.k, st.lay, st.s, st.atm, st.power)

Fields(s) == {"x", "y", "p", "ta", "ti", "mhe", "mair", "vol", "sp", "acsw", "flow",
              "solar", "load", "charge", "ts", "el"}
Finite(s) == \A f \in Fields(s) : FFinite(s[f])

\* For each property, what the specified next state x says about the recorded
\* next state s of an event e that started in o.
Cl01(st, e, x) ==
  << Clause("status-is-a-known-status", e.s.status \in Statuses),
     Clause("status-as-specified", e.s.status = x.status),
     Clause("flight-stops-with-the-terminal-event",
        FEq(e.s.el, x.el) /\ Close(e.s.x, x.x) /\ Close(e.s.y, x.y)) >> \o
  (IF e.ev # "env" THEN <<>> ELSE
   << Clause("terminal-iff-terminal-event", e.terminal = (e.s.status # "OK")),
      Clause("cause-out-of-power", e.fp = (e.s.status = "OUT_OF_POWER")),
      Clause("cause-burst", e.fb = (e.s.status = "BURST")),
      Clause("cause-zeropressure", e.fz = (e.s.status = "ZEROPRESSURE")),
      Clause("info-time-is-elapsed-time", FEq(e.itime, e.s.el)) >>)
Cl02(st, e, x) ==
  LET dur == FSub(e.s.el, st.s.el) IN
  << Clause("elapsed-time", FEq(e.s.el, x.el)),
     Clause("calendar-time", FEq(e.s.ts, x.ts)),
     Clause("clocks-advance-together", FEq(FSub(e.s.ts, st.s.ts), FSub(e.s.el, st.s.el))),
     Clause("eastward-drift", CloseA(FSub(e.s.x, st.s.x), FMul(e.u, dur), "1e-6")),
     Clause("northward-drift", CloseA(FSub(e.s.y, st.s.y), FMul(e.v, dur), "1e-6")) >> \o
  (IF e.ev # "env" THEN <<>> ELSE
   << Clause("wind-after-is-wind-at-new-state", Close(e.u2, e.u3) /\ Close(e.v2, e.v3)),
      Clause("three-minutes-unless-terminal", e.s.status # "OK" \/ FEq(FSub(e.s.el, st.s.el), 180)) >>)
Cl03(st, e, x) ==
  << Clause("charge", FClose(e.s.charge, x.charge, "1e-9", "1e-6")),
     Clause("solar-charging", FClose(e.s.solar, x.solar, "1e-7", "1e-9")),
     Clause("power-load", FClose(e.s.load, x.load, "1e-9", "1e-6")),
     Clause("charge-within-capacity", FGe(e.s.charge, 0) /\ FLe(e.s.charge, st.k.cap)),
     Clause("soc-is-charge-over-capacity", Close(e.soc, FDiv(e.s.charge, st.k.cap))),
     Clause("soc-in-unit-interval", FGe(e.soc, 0) /\ FLe(e.soc, 1)),
     Clause("out-of-power-iff-empty", (e.s.status = "OUT_OF_POWER") = FLe(e.s.charge, 0)) >>
Cl04(st, e, x) ==
  << Clause("compressor-power", FClose(e.s.acsw, x.acsw, "1e-9", "1e-7")),
     Clause("air-flow", FClose(e.s.flow, x.flow, "1e-9", "1e-9")),
     Clause("ballonet-air", FClose(e.s.mair, x.mair, "1e-11", "1e-7")),
     Clause("air-never-negative", FGe(e.s.mair, 0)),
     Clause("lift-gas-constant", FEq(e.s.mhe, st.s.mhe)),
     Clause("power-off-unless-descending", e.eff = "DOWN" \/ FEq(e.s.acsw, 0)) >>
Cl05(st, e, x) ==
  LET n == NSub(e)
      law == EnvelopeLaw(FAdd(st.s.mhe, st.s.mair), st.s.ti, st.s.p, st.k.v0, st.k.dv, e.s.vol, e.s.sp) IN
  << Clause("volume", FClose(e.s.vol, x.vol, "1e-9", "1e-7")),
     Clause("superpressure", FClose(e.s.sp, x.sp, "1e-9", "1e-6")),
     Clause("gas-law-and-linear-envelope", n # 1 \/ law),
     Clause("burst-or-zeropressure-as-specified",
        e.s.status = (IF FLe(e.s.charge, 0) THEN "OUT_OF_POWER"
                      ELSE IF FLe(e.s.sp, 0) THEN "ZEROPRESSURE"
                      ELSE IF FGt(e.s.sp, st.k.spmax) THEN "BURST" ELSE "OK")) >>
Cl06(st, e, x) ==
  LET n == NSub(e)
      asc == AscentRate(st.k, st.s) IN
  << Clause("pressure", FClose(e.s.p, x.p, "1e-12", "2e-4")),
     Clause("ambient-temperature", FClose(e.s.ta, x.ta, "1e-9", "1e-6")),
     Clause("gas-temperature", FClose(e.s.ti, x.ti, "1e-12", "1e-7")),
     Clause("rises-when-buoyant", n # 1 \/ FLe(asc.speed, "1e-5") \/ (asc.dir = 1) = FLt(e.s.p, st.s.p)) >>
Cl10(st, e, x) ==
  LET lay == NewLay(st, e)
      eff == Effective(lay, st.power, e.cmd) IN
  << Clause("last-command-is-the-commanded-one", e.last = e.cmd),
     Clause("paused-iff-a-layer-restricts", e.paused = Paused(lay)),
     Clause("effect-of-the-filtered-command", e.eff = "unknown" \/ e.eff = eff),
     Clause("descends-only-when-commanded", e.eff # "DOWN" \/ e.cmd = "DOWN") >>

\* A step of 18 substeps is chaotic in the last bits (square root of a nearly
\* neutral buoyancy), so it is judged in two parts: single substeps against
\* SubStep (events with n = 1), and a whole step against the same flight made
\* of single-substep calls with the same command and wind (e.subs), provided
\* the layers, consulted at every substep there, never change their mind.
RECURSIVE SameMind(_, _, _, _, _)
SameMind(st, e, lay, prev, i) ==
  \/ i > Len(e.subs)
  \/ LET nl == Layers(st.k, lay, prev, st.atm, st.power) IN
     /\ Effective(nl, st.power, e.cmd) = Effective(NewLay(st, e), st.power, e.cmd)
     /\ SameMind(st, e, nl, e.subs[i], i + 1)
SpecNext(st, e) ==
  IF NSub(e) = 1
    THEN SubStep(st.k, st.s, st.atm, e.u, e.v, Effective(NewLay(st, e), st.power, e.cmd), Sub10)
  ELSE IF SameMind(st, e, st.lay, st.s, 1) THEN e.subs[Len(e.subs)]
  ELSE e.s

JudgeStep(st, e) ==
  IF e.exc # "ok" THEN << Clause("step-must-not-raise", FALSE) >>
  ELSE IF ~Finite(e.s) THEN << Clause("state-is-finite", FALSE) >>
  ELSE LET x == SpecNext(st, e) IN
    CASE Focus = "C01" -> Cl01(st, e, x)
      [] Focus = "C02" -> Cl02(st, e, x)
      [] Focus = "C03" -> Cl03(st, e, x)
      [] Focus = "C04" -> Cl04(st, e, x)
      [] Focus = "C05" -> Cl05(st, e, x)
      [] Focus = "C06" -> Cl06(st, e, x)
      [] Focus = "C10" -> Cl10(st, e, x)

Same(a, b) == /\ \A f \in Fields(a) : FEq(a[f], b[f])
              /\ a.status = b.status

JudgeDef(st, e) ==
  CASE e.ev = "begin" ->
       << Clause("fresh-balloon-is-ok", e.s.status = "OK"),
          Clause("begin-state-is-finite", Finite(e.s)) >>
    [] e.ev \in {"sim", "env"} -> JudgeStep(st, e)
    [] e.ev = "poke" -> << Clause("poked-state-is-finite", Finite(e.s)) >>
    [] e.ev = "refused" ->
       IF Focus # "C01" THEN <<>> ELSE
       << Clause("step-after-terminal-event-is-refused", e.exc # "ok"),
          Clause("refused-step-changes-nothing", Same(st.s, e.s)) >>
    [] OTHER -> << Clause("known-event", FALSE) >>

AfterDef(st, e) ==
  CASE e.ev = "begin" -> Begun(e)
    [] e.ev \in {"sim", "env"} -> [st EXCEPT !.s = e.s, !.lay = NewLay(st, e)]
    [] e.ev = "poke" -> [st EXCEPT !.k = e.k, !.s = e.s]
    [] OTHER -> st
=============================================================================
