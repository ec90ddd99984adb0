----------------------------- MODULE Atmosphere -----------------------------
(* Piecewise-linear temperature profile with hydrostatic pressure.  The     *)
(* lapse rates interpolate (alpha in [0, 1]) between two extreme profiles.  *)
EXTENDS FloatOps
Gravity == "9.80665"
GasR == "8.3144621"
AirMolar == "0.02896492248116"
HeMolar == "0.004002602"
AirR == FDiv(GasR, AirMolar)

Heights == <<-610, 17000, 21000, 32000, 47000, 51000, 71000, 85000>>
LapseLow  == <<"-0.007", "0.006", "0.001", "0.0028", "0.0", "-0.0028", "-0.002">>
LapseHigh == <<"-0.0058", "0.005", "0.001", "0.0028", "0.0", "-0.0028", "-0.002">>
BaseTemperature == 300
BasePressure == "108870.8213"

Lapses(alpha) == [i \in 1..7 |-> FAdd(FMul(FSub(1, alpha), LapseLow[i]), FMul(alpha, LapseHigh[i]))]

\* Pressure at height dh above a level with pressure p0 and temperature t0.
PressureAbove(p0, t0, lapse, dh) ==
  IF FEq(lapse, 0) THEN FMul(p0, FExp(FNeg(FDiv(FMul(Gravity, dh), FMul(AirR, t0)))))
  ELSE FMul(p0, FPow(FDiv(FAdd(t0, FMul(lapse, dh)), t0), FNeg(FDiv(Gravity, FMul(AirR, lapse)))))

RECURSIVE Levels(_, _)
Levels(ls, i) ==   \* sequence of [h, t, p] at the first i transitions
  IF i = 1 THEN << [t |-> BaseTemperature, p |-> BasePressure] >>
  ELSE LET below == Levels(ls, i - 1)
           b == below[i - 1]
           dh == Heights[i] - Heights[i - 1]
       IN Append(below, [t |-> FAdd(b.t, FMul(ls[i - 1], dh)), p |-> PressureAbove(b.p, b.t, ls[i - 1], dh)])

MakeAtmosphere(alpha) == LET ls == Lapses(alpha) IN [alpha |-> alpha, ls |-> ls, lv |-> Levels(ls, 8)]

HeightInRange(h) == FGe(h, Heights[1]) /\ FLt(h, Heights[8])
PressureInRange(atm, p) == FGt(p, atm.lv[8].p) /\ FLe(p, atm.lv[1].p)

\* Layer containing a height / a pressure.
LayerOfHeight(h) == CHOOSE i \in 1..7 : FLt(h, Heights[i + 1]) /\ (i = 1 \/ FGe(h, Heights[i]))
LayerOfPressure(atm, p) == CHOOSE i \in 1..7 : FGt(p, atm.lv[i + 1].p) /\ (i = 1 \/ FLe(p, atm.lv[i].p))

Density(p, t) == FDiv(p, FMul(AirR, t))
AtHeight(atm, h) ==
  LET i == LayerOfHeight(h)
      dh == FSub(h, Heights[i])
      t == FAdd(atm.lv[i].t, FMul(atm.ls[i], dh))
      p == PressureAbove(atm.lv[i].p, atm.lv[i].t, atm.ls[i], dh)
  IN [h |-> h, t |-> t, p |-> p, rho |-> Density(p, t)]
AtPressure(atm, p) ==
  LET i == LayerOfPressure(atm, p)
      t0 == atm.lv[i].t
      r == FDiv(p, atm.lv[i].p)
      dh == IF FEq(atm.ls[i], 0) THEN FMul(FNeg(FDiv(FMul(AirR, t0), Gravity)), FLog(r))
            ELSE FDiv(FMul(FSub(FPow(r, FNeg(FDiv(FMul(AirR, atm.ls[i]), Gravity))), 1), t0), atm.ls[i])
      t == FAdd(t0, FMul(atm.ls[i], dh))
  IN [h |-> FAdd(Heights[i], dh), t |-> t, p |-> p, rho |-> Density(p, t)]

\* The hidden lapse parameter, inferred from the temperature at 10 km.
AlphaFrom(t10km) == FDiv(FAdd(FDiv(FSub(t10km, BaseTemperature), 10610), "0.007"), "0.0012")
=============================================================================
