----------------------------- MODULE T_Features -----------------------------
(* Judges observations (feature vectors), their named view, the pressure    *)
(* range, stable initialisation and the reward.  FOCUS selects a property.  *)
EXTENDS TraceKit, PressureRange
Focus == IOEnv.FOCUS
StartDef == 0
AtmOf(e) == MakeAtmosphere(AlphaFrom(e.t10))
F32(a, b) == FClose(a, b, "2e-6", "2e-7")     \* stored in single precision

\* ---- C14
LowHigh(i) == IF i \in 4..7 THEN <<-1, 1>> ELSE IF i = 16 THEN <<1, "1e300">> ELSE <<0, 1>>
AmbClauses(e) ==
  LET x == Ambient(e.k, e.s)
      sun == SunOf(e.k, e.s)
      okex == FGt(ExcessMargin(e.k, e.s, sun), "1e-7")
      okpow == PowerTableSettled(PRatio(e.s), Soc(e.k, e.s))
      ok(i) == IF i = 14 THEN (~okex \/ F32(e.amb[i], x[i]))
               ELSE IF i = 15 THEN (~okpow \/ F32(e.amb[i], x[i]))
               ELSE IF i \in {6, 7} THEN (FEq(e.s.x, 0) /\ FEq(e.s.y, 0)) \/ FClose(e.amb[i], x[i], "2e-6", "1e-6")
               ELSE IF i \in 3..5 THEN FClose(e.amb[i], x[i], "2e-6", "1e-6")
               ELSE F32(e.amb[i], x[i]) IN
  [i \in 1..16 |-> Clause("ambient-" \o AmbientNames[i], ok(i))] \o
  << Clause("ambient-entries-inside-the-observation-space",
       \A i \in 1..16 : Between(e.amb[i], LowHigh(i)[1], LowHigh(i)[2])),
     Clause("declared-space-bounds", \A i \in 1..16 : FEq(e.low[i], LowHigh(i)[1]) /\
                                       (IF i = 16 THEN ~FFinite(e.high[i]) ELSE FEq(e.high[i], LowHigh(i)[2]))),
     Clause("exactly-one-command-bit", FEq(FAdd(FAdd(e.amb[9], e.amb[10]), e.amb[11]), 1)),
     Clause("inside-declared-space", e.inspace),
     Clause("shape", e.n = 1099 /\ e.spacen = 1099) >>

\* ---- C15
SlotOk(e, j, rg) ==
  LET lv == SlotLevel(e.s.p, j)
      got == << e.wind[3 * j + 1], e.wind[3 * j + 2], e.wind[3 * j + 3] >>
      unr == \A i \in 1..3 : FEq(got[i], Unreachable[i])
      w == [u |-> e.est[2 * lv + 1], v |-> e.est[2 * lv + 2], dev |-> e.dev[lv + 1]]
      t == WindTriple(e.s, w)
      enc == F32(got[1], t[1]) /\ FClose(got[2], t[2], "2e-6", "1e-6") /\ F32(got[3], t[3]) IN
  IF lv < 0 \/ lv > 180 THEN unr
  ELSE LET p == LevelPressure(lv) IN
    IF FLt(FAbs(FSub(p, rg.lo)), "1e-3") \/ FLt(FAbs(FSub(p, rg.hi)), "1e-3") THEN unr \/ enc
    ELSE IF FLt(p, rg.lo) \/ FGt(p, rg.hi) THEN unr ELSE enc
WindClauses(e) ==
  LET rg == RangeOf(e.k, e.s, AtmOf(e)) IN
  << Clause("column-size", Len(e.wind) = 1083),
     Clause("accessible-range-exists", rg.ok),
     Clause("entries-in-unit-interval", \A i \in 1..Len(e.wind) : Between(e.wind[i], 0, "1.0001")),
     Clause("slots-centred-truthful-and-masked",
        CentreIsTie(e.s.p) \/ \A j \in 0..360 : SlotOk(e, j, rg)) >>

\* ---- C36: the range itself
RangeClauses(e) ==
  LET rg == RangeOf(e.k, e.s, AtmOf(e)) IN
  IF ~rg.ok THEN << Clause("no-safe-pressure-is-refused", e.exc # "ok") >>
  ELSE << Clause("range-is-found", e.exc = "ok"),
          Clause("range-minimum", FClose(e.lo, rg.lo, "1e-7", "1e-4")),
          Clause("range-maximum", FClose(e.hi, rg.hi, "1e-7", "1e-4")),
          Clause("above-the-altitude-floor", FLe(e.hi, FAdd(FloorPressure(AtmOf(e)), "1e-3"))) >>
StableClauses(e) ==
  LET f == FloatAt(e.k, e.s.mhe, SunOf(e.k, e.s), AtmOf(e), e.s.p) IN
  << Clause("stable-does-not-raise", e.exc = "ok"),
     Clause("stable-ambient-temperature", FClose(e.r.ta, f.ta, "1e-9", 0)),
     Clause("stable-gas-temperature", FClose(e.r.ti, f.ti, "1e-9", "1e-6")),
     Clause("stable-ballonet-air", FClose(e.r.mair, f.mair, "1e-9", "1e-6")),
     Clause("stable-volume", FClose(e.r.vol, f.vol, "1e-9", "1e-6")),
     Clause("stable-superpressure", FClose(e.r.sp, f.sp, "1e-7", "1e-4")),
     Clause("temperature-balanced",
        FLt(FAbs(TemperatureRate(e.k.v0, e.k.menv, e.r.ti, e.r.ta, e.s.p, SunOf(e.k, e.s).el, SunOf(e.k, e.s).flux, e.k.ir)), "1e-5")) >>

\* ---- C16
NamedClauses(e) ==
  << Clause("pressure", FClose(e.pressure, FMax(PMin, FMin(PMax, e.s.p)), "2e-6", "1e-2")),
     Clause("battery", F32(e.battery, Soc(e.k, e.s))),
     Clause("solar-elevation", F32(e.solar, e.amb[3])),
     Clause("solar-cycle", F32(e.ssin, e.amb[4]) /\ F32(e.scos, e.amb[5])),
     Clause("heading", F32(e.hsin, e.amb[6]) /\ F32(e.hcos, e.amb[7])),
     Clause("distance", F32(e.dist, Squash(DistKm(e.s), 250))),
     Clause("last-command", e.last = e.s.last),
     Clause("navigation-paused", FEq(e.paused, B01(e.s.paused))),
     Clause("navigation-flags-complementary", FEq(FAdd(e.enabled, e.paused), 1)),
     Clause("excess-energy", FEq(e.excess, e.amb[14])),
     Clause("descent-cost", FEq(e.cost, e.amb[15])),
     Clause("pressure-ratio", F32(e.ratio, PRatio(e.s))),
     Clause("number-of-levels", e.levels = 361),
     Clause("centre", e.centre = 180) >>
NamedWind(e) ==      \* one queried level
  IF e.level < 0 \/ e.level > 360
    THEN << Clause("level-outside-the-column-is-rejected", e.exc # "ok") >>
  ELSE << Clause("level-inside-the-column-is-answered", e.exc = "ok"),
          Clause("wind-at-level", FEq(e.u, e.w[1]) /\ FEq(e.b, e.w[2]) /\ FEq(e.m, e.w[3])),
          Clause("valid-iff-not-unreachable-marker",
             e.valid = ~(FEq(e.w[1], 0) /\ FEq(e.w[2], 1) /\ FEq(e.w[3], 1))),
          Clause("physical-bearing", e.rexc # "ok" \/ FClose(e.rb, FMul(e.w[2], PI), "1e-6", "1e-7")),
          Clause("physical-magnitude", e.rexc # "ok" \/
             FClose(e.rm, FDiv(FMul(30, e.w[3]), FSub(1, e.w[3])), "1e-5", "1e-7")),
          Clause("physical-uncertainty", e.rexc # "ok" \/ FEq(e.ru, e.w[1])),
          Clause("valid-wind-converts", ~e.valid \/ e.rexc = "ok") >>

\* ---- C18
RewardClauses(e) ==
  LET okex == FGt(ExcessMargin(e.k, e.s, SunOf(e.k, e.s)), "1e-7") \/ e.s.last # "DOWN"
      edge == FLt(FAbs(FSub(DistKm(e.s), e.par.radius)), "1e-9") IN
  << Clause("reward-is-the-documented-function",
       ~okex \/ (edge /\ ~FEq(DistKm(e.s), e.par.radius)) \/ FClose(e.reward, RewardOf(e.k, e.s, e.par), "1e-7", "1e-12")),
     Clause("reward-in-unit-interval", Between(e.reward, 0, 1)) >> \o
  (IF Has(e, "stepped") THEN << Clause("step-returns-the-reward-of-its-state", FEq(e.stepped, e.reward)) >> ELSE <<>>) \o
  (IF Has(e, "farther") THEN << Clause("never-increases-with-distance", FLe(e.farther, e.reward)) >> ELSE <<>>)

JudgeDef(z, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "table" -> << Clause("power-table", e.exc = "ok" /\ FEq(e.w, PowerToUse(e.ratio, e.soc))) >>
    [] e.ev = "represents" -> << Clause("represented-pressures", e.exc = "ok" /\ (e.yes <=> Between(e.p, PMin, PMax))) >>
    [] e.ev = "kept" -> << Clause("observations-given-out-never-change", e.same) >>
    [] e.ev = "range" -> RangeClauses(e)
    [] e.ev = "level" -> NamedWind(e)
    [] e.exc # "ok" /\ e.ev = "column" -> << Clause("must-not-raise", ~RangeOf(e.k, e.s, AtmOf(e)).ok) >>
    [] e.exc # "ok" -> << Clause("must-not-raise", FALSE) >>
    [] e.ev = "ambient" -> AmbClauses(e)
    [] e.ev = "column" -> WindClauses(e)
    [] e.ev = "stable" -> StableClauses(e)
    [] e.ev = "named" -> NamedClauses(e)
    [] e.ev = "reward" -> RewardClauses(e)
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(z, e) == z
=============================================================================
