----------------------------- MODULE MC_Initial -----------------------------
(* Every extreme combination of the draws starts a floating, pressurised     *)
(* balloon that neither bursts nor collapses.  The state is one draw; a step *)
(* redraws one quantity.                                                     *)
EXTENDS Initial, TLC, Integers, FiniteSets
CONSTANTS Steps, Irs, Lats, Hours, Days, Alphas
LatsDef == {-10, 0, 10}
VARIABLES level, ir, lat, hour, day, alpha
vars == <<level, ir, lat, hour, day, alpha>>
Init == /\ level \in 0..Steps /\ ir \in Irs /\ lat \in Lats /\ hour \in Hours /\ day \in Days /\ alpha \in Alphas
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Atm == MakeAtmosphere(FDiv(alpha, 2))
P == FAdd(LeastPressure, FMul(FDiv(FSub(FloorPressure(Atm), LeastPressure), Steps), level))
K == [v0 |-> 1804, dv |-> "0.0199", menv |-> "68.5", mpay |-> "92.5", spmax |-> 2380, cap |-> "3058.56", dload |-> "120.4",
      lat |-> FDiv(FMul(lat, "3.141592653589793"), 180), lng |-> 0, ir |-> ir]
S == [x |-> 0, y |-> 0, p |-> P, mhe |-> 6830, ts |-> FirstTime + day * 86400 + hour * 3600]
F == FloatAt(K, 6830, SunOf(K, S), Atm, P)
NeverBursts == FLt(F.sp, K.spmax)
NeverCollapses == FGt(F.sp, 0)
NeedsAir == FGe(F.mair, 0)
Balanced == LET s == SunOf(K, S) IN
            FLt(FAbs(TemperatureRate(K.v0, K.menv, F.ti, F.ta, P, s.el, s.flux, K.ir)), "1e-5")
FloorIsDense == FGt(FloorPressure(Atm), SafePressure)
=============================================================================
