--------------------------------- MODULE Acs --------------------------------
(* Altitude control system: compressor power and efficiency tables, valve.  *)
EXTENDS Atmosphere
LOCAL Pi2 == "3.141592653589793"
PowerX == <<"1.0", "1.05", "1.2", "1.25", "1.35">>
PowerY == <<100, 100, 300, 400, 400>>
\* Piecewise linear; constant beyond both ends (the end segments are flat).
RECURSIVE Lin1(_, _, _, _)
Lin1(xs, ys, x, i) ==
  IF FLe(x, xs[1]) THEN ys[1]
  ELSE IF i = Len(xs) THEN ys[i]
  ELSE IF FLe(x, xs[i + 1])
    THEN FAdd(ys[i], FMul(FDiv(FSub(ys[i + 1], ys[i]), FSub(xs[i + 1], xs[i])), FSub(x, xs[i])))
    ELSE Lin1(xs, ys, x, i + 1)
BestPower(ratio) == Lin1(PowerX, PowerY, ratio, 1)

\* Efficiency of the fan: rows by power 100, 200, 300, 400 W; columns by
\* pressure ratio 1.05, 1.075, ..., 1.35; bilinear, clamped to the table.
Eff == << <<"0.4", "0.4", "0.3", "0.2", "0.2", 0, 0, 0, 0, 0, 0, 0, 0>>,
          <<"0.4", "0.3", "0.3", "0.30", "0.25", "0.23", "0.20", "0.15", "0.12", "0.10", 0, 0, 0>>,
          <<0, "0.3", "0.25", "0.25", "0.25", "0.20", "0.20", "0.20", "0.2", "0.15", "0.13", "0.12", "0.11">>,
          <<0, "0.23", "0.23", "0.23", "0.23", "0.23", "0.20", "0.20", "0.20", "0.18", "0.16", "0.15", "0.13">> >>
FClamp(x, lo, hi) == FMax(lo, FMin(hi, x))
IMin(a, b) == IF a < b THEN a ELSE b
FanEfficiency(ratio, watts) ==
  LET cx == FDiv(FSub(FClamp(ratio, "1.05", "1.35"), "1.05"), "0.025")
      cy == FDiv(FSub(FClamp(watts, 100, 400), 100), 100)
      i == IMin(FFloor(cx), 11)   j == IMin(FFloor(cy), 2)
      fx == FSub(cx, i)   fy == FSub(cy, j)
      row(k) == FAdd(FMul(FSub(1, fx), Eff[k][i + 1]), FMul(fx, Eff[k][i + 2]))
  IN FAdd(FMul(FSub(1, fy), row(j + 1)), FMul(fy, row(j + 2)))
PumpFlow(watts, efficiency) == FDiv(FMul(efficiency, watts), 3600)

\* Mass flow out of the valve (negative), discharge coefficient 0.62.
VentFlow(diameter, sp, p, ti) ==
  LET area == FDiv(FMul(Pi2, FMul(diameter, diameter)), 4)
      rho == FDiv(FMul(FAdd(sp, p), AirMolar), FMul(GasR, ti))
  IN FMul(FMul("-0.62", area), FSqrt(FMul(FMul(2, sp), rho)))

PressureRatio(p, sp) == FDiv(FAdd(p, FMax(sp, 0)), p)
=============================================================================
