-------------------------------- MODULE Solar -------------------------------
(* Solar ephemeris (NOAA), panel power and attenuation.                     *)
(* ts: Unix time in seconds (UTC); lat, lng in radians; results in degrees  *)
(* and W/m^2.                                                               *)
EXTENDS SphereGeom

MinElevation == "-4.242"
\* a + x (b + x c)
Poly2(x, a, b, c) == FAdd(a, FMul(x, FAdd(b, FMul(x, c))))

JulianDayOf(days) == FAdd(days, "2440587.5")    \* days since 1970-01-01, UTC

SolarAt(lat, lng, ts) ==
  LET days == FFloor(FDiv(ts, 86400))
      frac == FDiv(FSub(FFloorF(ts), FMul(days, 86400)), 86400)
      T == FDiv(FSub(FAdd(JulianDayOf(days), frac), 2451545), 36525)
      L0 == Rad(FAdd("280.46646", FMul(T, FAdd("36000.76983", FMul(T, "0.0003032")))))
      M == Rad(FAdd("357.52911", FMul(T, FSub("35999.05029", FMul("0.0001537", T)))))
      eps0 == Rad(FAdd(23, FDiv(FAdd(26, FDiv(FSub("21.448", FMul(T, FAdd("46.815",
                FMul(T, FSub("0.00059", FMul(T, "0.001813")))))), 60)), 60)))
      om == Rad(FSub("125.04", FMul("1934.136", T)))
      eps == FAdd(eps0, Rad(FMul("0.00256", FCos(om))))
      tn == FTan(FDiv(eps, 2))
      vy == FMul(tn, tn)
      ec == FSub("0.016708634", FMul(T, FAdd("0.000042037", FMul("0.0000001267", T))))
      sM == FSin(M)
      eqt == FMul(4, FSub(FSub(FAdd(FSub(FMul(vy, FSin(FMul(2, L0))), FMul(FMul(2, ec), sM)),
               FMul(FMul(FMul(4, ec), vy), FMul(sM, FCos(FMul(2, L0))))),
               FMul(FMul("0.5", FMul(vy, vy)), FSin(FMul(4, L0)))),
               FMul(FMul("1.25", FMul(ec, ec)), FSin(FMul(2, M)))))
      \* true solar time in minutes, hour angle in [-pi, pi]
      tst == FAdd(FAdd(FMul(1440, frac), Deg(eqt)), FMul(4, Deg(lng)))
      ha0 == Rad(FSub(FDiv(tst, 4), 180))
      ha == FSub(ha0, FMul(FMul(2, PI), FFloorF(FDiv(FAdd(ha0, PI), FMul(2, PI)))))
      C == Rad(FAdd(FAdd(
             FMul(sM, FSub("1.914602", FMul(T, FAdd("0.004817", FMul("0.000014", T))))),
             FMul(FSin(FMul(2, M)), FSub("0.019993", FMul("0.000101", T)))),
             FMul(FSin(FMul(3, M)), "0.000289")))
      lam == FSub(FAdd(L0, C), Rad(FSub("0.00569", FMul("0.00478", FSin(om)))))
      dec == FAsin(FMul(FSin(eps), FSin(lam)))
      cz == FAdd(FMul(FSin(lat), FSin(dec)), FMul(FMul(FCos(lat), FCos(dec)), FCos(ha)))
      zen == FAcos(FMax(-1, FMin(1, cz)))
      el0 == FSub(90, Deg(zen))
      tse == FTan(Rad(el0))
      refr == IF FGt(el0, 85) THEN 0
              ELSE IF FGt(el0, 5)
                THEN FAdd(FSub(FDiv("58.1", tse), FDiv("0.07", FPow(tse, 3))), FDiv("0.000086", FPow(tse, 5)))
              ELSE IF FGt(el0, "-0.575")
                THEN FAdd(1735, FMul(el0, FAdd("-518.2", FMul(el0, FAdd("103.4",
                       FMul(el0, FAdd("-12.79", FMul(el0, "0.711"))))))))
              ELSE FDiv("-20.772", tse)
      caz == FDiv(FSub(FMul(FSin(lat), FCos(zen)), FSin(dec)), FMul(FCos(lat), FSin(zen)))
      azu == Deg(FAcos(FMax(-1, FMin(1, caz))))
      az == IF FGt(ha, 0) THEN FAdd(azu, 180) ELSE FSub(180, azu)
      q == FDiv(FAdd(1, ec), FSub(1, ec))
      flux == FMul(1366, FAdd(1, FMul(FMul("0.5", FSub(FMul(q, q), 1)), FCos(M))))
  IN [el |-> FAdd(el0, FDiv(refr, 3600)), el0 |-> el0, az |-> az, flux |-> flux, ha |-> ha, dec |-> dec]

\* Fraction of sunlight left after the atmosphere above pressure p.
Attenuation(el, p) ==
  IF FLt(el, MinElevation) THEN "0.0"
  ELSE LET s == FMul(614, FSin(Rad(el)))
           m == FMul(FMul("0.34764", FDiv(p, 101325)), FSub(FSqrt(FAdd(1229, FMul(s, s))), s))
       IN FMul("0.5", FAdd(FExp(FMul("-0.65", m)), FExp(FMul("-0.95", m))))

\* The balloon (radius 8.69275 m, height 10.41603 m) shades panels hanging h below.
Shadow(el, h) ==
  IF FGe(el, Deg(FAtan2(FSqrt(FMul(h, FAdd("10.41603", h))), "8.69275"))) THEN "0.4392" ELSE "1.0"

\* Four panels at 35 degrees, 3.3 m below; two at 65 degrees, 2.7 m below; 210 W each.
SolarPower(el, p) ==
  FMul(FMul(210, Attenuation(el, p)),
       FAdd(FMul(FMul(4, FCos(Rad(FSub(el, 35)))), Shadow(el, "3.3")),
            FMul(FMul(2, FCos(Rad(FSub(el, 65)))), Shadow(el, "2.7"))))
IsDay(el) == FGt(el, MinElevation)
=============================================================================
