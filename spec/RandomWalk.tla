----------------------------- MODULE RandomWalk -----------------------------
(* The random-walk agent: it moves towards a hidden target pressure, with a  *)
(* hysteresis; the target is drawn uniformly when an episode begins and      *)
(* takes a Gaussian step, whose size depends only on the time since the last *)
(* one, at every step.                                                       *)
EXTENDS Integers, Sequences, FloatOps
Hysteresis == 100
StepSd == FMul("0.1666", 180)   \* Pa: about 10 Pa a minute, three minutes
TargetLo == 6500
TargetHi == 11400
Action(p, target) ==
  IF FGt(FSub(p, Hysteresis), target) THEN "UP"
  ELSE IF FLt(FAdd(p, Hysteresis), target) THEN "DOWN" ELSE "STAY"

\* What an action at pressure p says about the target.
Lower(p, a) == CASE a = "DOWN" -> FAdd(p, Hysteresis)
                 [] a = "STAY" -> FSub(p, Hysteresis)
                 [] OTHER -> "-Infinity"
Upper(p, a) == CASE a = "UP" -> FSub(p, Hysteresis)
                 [] a = "STAY" -> FAdd(p, Hysteresis)
                 [] OTHER -> "Infinity"
RECURSIVE MaxOf(_, _), MinOf(_, _)
MaxOf(q, k) == IF k = 1 THEN Lower(q[1].p, q[1].a) ELSE FMax(MaxOf(q, k - 1), Lower(q[k].p, q[k].a))
MinOf(q, k) == IF k = 1 THEN Upper(q[1].p, q[1].a) ELSE FMin(MinOf(q, k - 1), Upper(q[k].p, q[k].a))
Lo(q) == MaxOf(q, Len(q))
Hi(q) == MinOf(q, Len(q))
=============================================================================
