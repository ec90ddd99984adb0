----------------------------- MODULE WindField -----------------------------
(* Wind fields: the static field, the noise model, and forecasts read from  *)
(* a stored grid.  Distances are in km, pressures in Pa, times in hours.    *)
EXTENDS Integers, Sequences, FloatOps

\* --- the documented altitude layers of the static field ---
StaticWind(p) ==
  IF FLt(p, 8000) THEN <<10, 0>>
  ELSE IF FLt(p, 10000) THEN <<0, 10>>
  ELSE IF FLt(p, 12000) THEN <<-10, 0>>
  ELSE <<0, -10>>

\* --- noise: per component five harmonics <<weight, x, y, pressure, time spacing>> ---
Harmonics == [
  u |-> << <<"0.1445", "702.269", "2116.987", "2587.802", "245.0">>,
           <<"0.2766", "1483.570", "752.124", "646.208", "16.39">>,
           <<"0.2627", "276.810", "147.040", "587.702", "3.836">>,
           <<"0.2137", "10214.525", "1512.216", "965.629", "41.780">>,
           <<"0.1025", "181.286", "420.942", "8500.0", "245.0">> >>,
  v |-> << <<"0.2716", "1974.228", "2028.814", "713.697", "26.435">>,
           <<"0.2684", "699.738", "541.845", "632.116", "9.530">>,
           <<"0.2348", "217.750", "196.522", "686.825", "3.546">>,
           <<"0.1186", "47.500", "43.048", "66.553", "8.424">>,
           <<"0.1066", "3663.291", "232.023", "7499.741", "225.0">> >> ]
Weights(which) == [i \in 1..Len(Harmonics[which]) |-> Harmonics[which][i][1]]
\* Where harmonic i is evaluated, in units of its own spacings.
Scaled(which, i, x, y, p, t) ==
  LET h == Harmonics[which][i] IN <<FDiv(x, h[2]), FDiv(y, h[3]), FDiv(p, h[4]), FDiv(t, h[5])>>
\* Weighted sum of the harmonics, renormalised to the variance of one harmonic.
ComponentNoise(which, values) ==
  LET w == Weights(which) IN FDiv(FDot(w, values), FSqrt(FDot(w, w)))

\* --- a stored grid ---
\* shape: [n, np, nt, km, pmin, pmax, hours]
Clamp(v, lo, hi) == FMin(FMax(v, lo), hi)
\* Times inside the period are used directly; later ones run back and forth.
Boomerang(t, h) ==
  IF FLt(t, h) THEN t
  ELSE LET k == FFloor(FDiv(t, h))
           r == FSub(t, FMul(h, k)) IN
       IF k % 2 = 0 THEN r ELSE FSub(h, r)
GridPoint(s, x, y, p, t) ==
  << Clamp(x, FNeg(s.km), s.km), Clamp(y, FNeg(s.km), s.km), Clamp(p, s.pmin, s.pmax), Boomerang(t, s.hours) >>
AxisLo(s) == << FNeg(s.km), FNeg(s.km), s.pmin, 0 >>
AxisHi(s) == << s.km, s.km, s.pmax, s.hours >>
AxisN(s)  == << s.n, s.n, s.np, s.nt >>
\* Node i (0-based) of axis a: evenly spaced; the time nodes are whole hours.
Node(s, a, i) ==
  LET v == FAdd(AxisLo(s)[a], FDiv(FMul(FSub(AxisHi(s)[a], AxisLo(s)[a]), i), AxisN(s)[a] - 1)) IN
  IF a = 4 THEN FFloor(v) ELSE v
\* c: lower corner of the cell (0-based).  val: 16 values, index bits (a1 slowest).
Bit(k, a) == (k \div (2 ^ (4 - a))) % 2
Hat(f, b) == IF b = 1 THEN f ELSE FSub(1, f)
Weight(fr, k) == FMul(FMul(Hat(fr[1], Bit(k, 1)), Hat(fr[2], Bit(k, 2))), FMul(Hat(fr[3], Bit(k, 3)), Hat(fr[4], Bit(k, 4))))
Frac(s, c, q) == [a \in 1..4 |->
  FDiv(FSub(q[a], Node(s, a, c[a])), FSub(Node(s, a, c[a] + 1), Node(s, a, c[a])))]
\* The cell really contains the point (up to the single precision of the lookup).
InCell(s, c, q) ==
  LET fr == Frac(s, c, q) IN
  \A a \in 1..4 : c[a] \in 0..(AxisN(s)[a] - 2) /\ FLe("-1e-4", fr[a]) /\ FLe(fr[a], "1.0001")
Interpolate(s, c, q, val) == LET fr == Frac(s, c, q) IN FDot([k \in 1..16 |-> Weight(fr, k - 1)], val)
=============================================================================
