---------------------------- MODULE PressureRange ---------------------------
(* Pressures the balloon can float at with a safe superpressure.            *)
EXTENDS Observation, Envelope
\* Float at pressure p: ballonet air that makes the balloon neutral, gas
\* temperature in balance, and the envelope state that follows.
RECURSIVE Balance(_, _, _, _)
Balance(rate(_), t, i, n) ==
  LET a == rate(FSub(t, "0.005"))  b == rate(FAdd(t, "0.005"))
      m == FDiv(FAdd(a, b), 2)     d == FDiv(FSub(b, a), "0.01")
      t2 == IF FEq(d, 0) THEN t ELSE FSub(t, FDiv(m, d)) IN
  IF i >= n \/ FLt(FAbs(m), "1e-5") THEN t2 ELSE Balance(rate, t2, i + 1, n)

DryMass(k, mhe) == FAdd(FAdd(k.menv, k.mpay), FMul(HeMolar, mhe))
FloatAt(k, mhe, sun, atm, p) ==
  LET ta == AtPressure(atm, p).t
      air == FMax(0, FDiv(FSub(FDiv(FMul(FMul(p, AirMolar), k.v0), FMul(GasR, ta)), DryMass(k, mhe)), AirMolar))
      ti == Balance(LAMBDA t : TemperatureRate(k.v0, k.menv, t, ta, p, sun.el, sun.flux, k.ir), 206, 1, 10)
      e == EnvelopeAt(FAdd(mhe, air), ti, p, k.v0, k.dv)
  IN [p |-> p, ta |-> ta, ti |-> ti, mair |-> air, vol |-> e.vol, sp |-> e.sp]

FloorPressure(atm) == AtHeight(atm, FMul(50000, "0.3048")).p
NProbe == 20
Probe(atm, i) == FAdd(1000, FMul(FDiv(FSub(FloorPressure(atm), 1000), NProbe - 1), i - 1))

Lerp(x1, y1, x2, y2, y) == FAdd(x1, FMul(FDiv(FSub(y, y1), FSub(y2, y1)), FSub(x2, x1)))
\* Pressure at which p / T(p) reaches the value that floats an empty ballonet.
CeilingPressure(k, mhe, atm, probes) ==
  LET want == FDiv(FMul(DryMass(k, mhe), GasR), FMul(AirMolar, k.v0))
      pot == [i \in 1..NProbe |-> FDiv(probes[i], AtPressure(atm, probes[i]).t)]
      i == IF FLt(want, pot[2]) THEN 1
           ELSE IF FGe(want, pot[NProbe - 1]) THEN NProbe - 1
           ELSE CHOOSE j \in 2..(NProbe - 2) : FGe(want, pot[j]) /\ FLt(want, pot[j + 1])
  IN Lerp(probes[i], pot[i], probes[i + 1], pot[i + 1], want)

\* Walks the probes from the limit inwards until one is safe; the limit is
\* where the superpressure crosses the bound between the last two.
RECURSIVE Inward(_, _, _, _, _)
Inward(floatAt(_), order, i, last, lim) ==
  IF i > Len(order) THEN [ok |-> FALSE, p |-> 0]
  ELSE LET f == floatAt(order[i]) IN
    IF FGe(f.sp, lim.lo) /\ FLe(f.sp, lim.hi)
      THEN [ok |-> TRUE, p |-> Lerp(last.p, last.sp, f.p, f.sp, IF FLt(last.sp, lim.lo) THEN lim.lo ELSE lim.hi)]
      ELSE Inward(floatAt, order, i + 1, f, lim)
SafeFrom(floatAt(_), limit, order, lim) ==
  LET f == floatAt(limit) IN
  IF FGe(f.sp, lim.lo) /\ FLe(f.sp, lim.hi) THEN [ok |-> TRUE, p |-> limit]
  ELSE Inward(floatAt, order, 1, f, lim)

RangeOf(k, s, atm) ==
  LET sun == SunOf(k, s)
      probes == [i \in 1..NProbe |-> Probe(atm, i)]
      ceil == CeilingPressure(k, s.mhe, atm, probes)
      lim == [lo |-> 250, hi |-> FSub(k.spmax, 250)]
      at(p) == FloatAt(k, s.mhe, sun, atm, p)
      lo == SafeFrom(at, ceil, SelectSeq(probes, LAMBDA p : FGe(p, ceil)), lim)
      hi == SafeFrom(at, probes[NProbe], [i \in 1..NProbe |-> probes[NProbe + 1 - i]], lim)
  IN [ok |-> lo.ok /\ hi.ok, lo |-> lo.p, hi |-> hi.p]
=============================================================================
