------------------------------ MODULE Envelope ------------------------------
(* Volume and superpressure of the envelope V = V0 + dv * superpressure.    *)
EXTENDS Atmosphere
FreeVolume(mols, ti, p) == FDiv(FMul(FMul(mols, GasR), ti), p)
EnvelopeAt(mols, ti, p, v0, dv) ==
  LET free == FreeVolume(mols, ti, p) IN
  IF FLe(free, v0) THEN [vol |-> free, sp |-> "0.0"]
  ELSE LET b == FSub(v0, FMul(dv, p))
           vol == FMul("0.5", FAdd(b, FSqrt(FAdd(FMul(b, b), FMul(4, FMul(dv, FMul(free, p)))))))
       IN [vol |-> vol, sp |-> FSub(FDiv(FMul(p, free), vol), p)]
\* The defining equations, independent of how they are solved.
EnvelopeLaw(mols, ti, p, v0, dv, vol, sp) ==
  LET free == FreeVolume(mols, ti, p) IN
  IF FLe(free, v0) THEN FClose(vol, free, "1e-9", 0) /\ FEq(sp, 0)
  ELSE /\ FClose(vol, FAdd(v0, FMul(dv, sp)), "1e-9", 0)
       /\ FClose(FMul(FAdd(sp, p), vol), FMul(p, free), "1e-9", 0)
       /\ FGe(sp, "-1e-7")
=============================================================================
