---------------------------- MODULE StationSeeker ---------------------------
(* The station-seeking controller of the Nature paper: a score for every     *)
(* pressure level, and a command towards the best one.  Wind features are    *)
(* [u, b, m]: uncertainty, bearing and magnitude, all in the unit interval;  *)
(* d is the distance feature.                                                *)
EXTENDS Integers, Sequences, FloatOps
Pi == FAtan2(0, -1)
Unsquash(x, k) == FDiv(FMul(x, k), FSub(1, x))
Km(d) == Unsquash(d, 250)
Mps(m) == Unsquash(m, 30)
Rad(b) == FMul(b, Pi)
Clip01(x) == FMin(FMax(x, 0), 1)
\* How much the wind's strength rather than its direction counts.
Alpha(km) == FExp(FNeg(FDiv(km, 35)))
BearingWeight(km) == FAdd("0.6", FMul(Clip01(FDiv(FSub(km, 250), 250)), "-0.15"))
WindScore(w, d) ==
  LET km == Km(d)  a == Alpha(km) IN
  FAdd(FMul(FSub(1, a), FExp(FNeg(FMul(BearingWeight(km), Rad(w.b))))),
       FMul(a, FExp(FNeg(FMul("0.07", Mps(w.m))))))
Score(w, d, dist) ==   \* dist: levels between it and the balloon
  FAdd(FAdd(FMul(FSub("1.01", w.u), WindScore(w, d)), FMul(w.u, "0.5")),
       FMul("0.05", FExp(FMul("-0.001", dist))))
MaxScore == "1.06"
Abs(i) == IF i < 0 THEN -i ELSE i
\* Levels are counted from the one of lowest pressure; mid is the balloon's.
Command(level, mid) == IF level < mid THEN "UP" ELSE IF level > mid THEN "DOWN" ELSE "STAY"
=============================================================================
