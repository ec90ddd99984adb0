----------------------------- MODULE SphereGeom -----------------------------
(* Displacement on a spherical Earth of radius 6371 km (angles in radians). *)
EXTENDS FloatOps
PI == "3.141592653589793"
Rad(deg) == FDiv(FMul(deg, PI), 180)
Deg(rad) == FDiv(FMul(rad, 180), PI)
EarthKm == 6371

\* Wraps an angle into [-pi, pi].
WrapPi(a) == FAtan2(FSin(a), FCos(a))

\* Position (latitude, longitude in radians) x km east and y km north of a
\* centre, along the great circle with that initial heading.
Offset(lat, lng, xkm, ykm) ==
  LET ang == FDiv(FHypot(xkm, ykm), EarthKm)
      hd  == FAtan2(xkm, ykm)
      ca == FCos(ang)  sa == FSin(ang)
      sl == FSin(lat)  cl == FCos(lat)
      sinlat == FAdd(FMul(ca, sl), FMul(FMul(sa, cl), FCos(hd)))
      dlng == FAtan2(FMul(FMul(sa, cl), FSin(hd)), FSub(ca, FMul(sl, sinlat)))
  IN [lat |-> FAsin(FMax(-1, FMin(1, sinlat))), lng |-> FAdd(lng, dlng)]
=============================================================================
