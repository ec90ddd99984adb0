------------------------------- MODULE Thermal ------------------------------
(* Gas temperature rate of a PE01 balloon: sun, earth, emission, convection *)
EXTENDS Solar, Atmosphere
Sigma == "0.000000056704"
Reflectivity == "0.0291"
AbsSolar == "0.01435"
AbsIr(t) == FAdd("0.04587", FMul("0.000232", FSub(t, 210)))
\* Multiple internal reflection: A (1 + T / (1 - R)), T = 1 - A - R.
TotalAbs(a) == FMul(a, FAdd(1, FDiv(FSub(FSub(1, a), Reflectivity), FSub(1, Reflectivity))))
AbsInRange(a) == LET x == TotalAbs(a) IN FGe(x, 0) /\ FLe(x, 1)
Pow4(x) == FMul(FMul(x, x), FMul(x, x))

Convection(radius, tb, ta, p) ==
  LET visc == FDiv(FMul("1.458e-6", FPow(ta, "1.5")), FAdd(ta, "110.4"))
      cond == FMul("0.0241", FPow(FDiv(ta, "273.15"), "0.9"))
      prandtl == FSub("0.804", FMul("3.25e-4", ta))
      rho == FDiv(FMul(p, AirMolar), FMul(GasR, ta))
      grashof == FMul(FDiv(FMul(FMul(Gravity, FMul(rho, rho)), FPow(FMul(2, radius), 3)),
                           FMul(ta, FMul(visc, visc))), FAbs(FSub(ta, tb)))
      ray == FMul(prandtl, grashof)
      nus == FAdd(FAdd(2, FMul("0.457", FPow(ray, "0.25"))),
                  FPow(FAdd(1, FMul("2.69e-8", ray)), FDiv(1, 12)))
  IN FMul(FDiv(FMul(nus, cond), FMul(2, radius)), FSub(ta, tb))

TemperatureRate(vol, mass, tb, ta, p, el, flux, earth) ==
  LET r == FPow(FDiv(FMul(3, vol), FMul(4, PI)), FDiv(1, 3))
      area == FMul(FMul(4, PI), FMul(r, r))
      qs == FMul(FMul(FMul(FMul(flux, Attenuation(el, p)), "0.25"), area), TotalAbs(AbsSolar))
      qe == FMul(FMul(FMul(earth, "0.4605"), area), TotalAbs(AbsIr(FPow(FDiv(earth, Sigma), "0.25"))))
      qm == FMul(FMul(FMul(Sigma, Pow4(tb)), area), TotalAbs(AbsIr(tb)))
      qc == FMul(area, Convection(r, tb, ta, p))
  IN FDiv(FSub(FAdd(FAdd(qs, qe), qc), qm), FMul(1500, mass))
=============================================================================
