------------------------------- MODULE WindGP -------------------------------
(* Wind estimation by Gaussian-process regression on the forecast errors.   *)
(* Observation and query points: [x, y, p, t] in metres, pascals, seconds.  *)
EXTENDS FloatOps
ScaleXY == 357000
ScaleP == 326
ScaleT == 34560
Prior == FMul("3.6", "3.6")      \* prior variance of one component
Noise == "0.05"                  \* measurement variance
Horizon == 21600                 \* six hours

Sq(v) == FMul(v, v)
Kernel(a, b) ==
  FMul(Prior, FExp(FNeg(FSqrt(FAdd(FAdd(Sq(FDiv(FSub(a.x, b.x), ScaleXY)), Sq(FDiv(FSub(a.y, b.y), ScaleXY))),
                                   FAdd(Sq(FDiv(FSub(a.p, b.p), ScaleP)), Sq(FDiv(FSub(a.t, b.t), ScaleT))))))))

Usable(o, t) == FLt(FAbs(FSub(o.t, t)), Horizon)
UsableObs(obs, t) == SelectSeq(obs, LAMBDA o : Usable(o, t))
\* An observation so close to the horizon that rounding decides.
Gram(obs) == [i \in 1..Len(obs) |-> [j \in 1..Len(obs) |->
                FAdd(Kernel(obs[i], obs[j]), IF i = j THEN Noise ELSE 0)]]

\* Posterior at q from observations with forecast errors eu, ev and the
\* forecast (fu, fv) at q.  deviation: posterior variance over prior variance.
Posterior(gram, wu, wv, obs, q) ==
  LET k == [i \in 1..Len(obs) |-> Kernel(obs[i], q)]
      z == FSolve(gram, k)
  IN [u |-> FAdd(q.fu, FDot(k, wu)), v |-> FAdd(q.fv, FDot(k, wv)),
      dev |-> FSub(1, FDiv(FDot(k, z), Prior))]
NoObs(q) == [u |-> q.fu, v |-> q.fv, dev |-> "0.0"]
Column(all, qs) ==
  LET obs == UsableObs(all, qs[1].t) IN
  IF obs = <<>> THEN [i \in 1..Len(qs) |-> NoObs(qs[i])]
  ELSE LET g == Gram(obs)
           wu == FSolve(g, [i \in 1..Len(obs) |-> obs[i].eu])
           wv == FSolve(g, [i \in 1..Len(obs) |-> obs[i].ev])
       IN [i \in 1..Len(qs) |-> Posterior(g, wu, wv, obs, qs[i])]
=============================================================================
