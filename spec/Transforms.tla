----------------------------- MODULE Transforms -----------------------------
(* The scalar encodings used for observations.                              *)
EXTENDS FloatOps
Rescale(x, lo, hi) == FDiv(FSub(x, lo), FSub(hi, lo))
UndoRescale(y, lo, hi) == FAdd(lo, FMul(y, FSub(hi, lo)))
Saturate(x, lo, hi) == FMin(1, FMax(0, Rescale(x, lo, hi)))
Squash(x, k) == FDiv(x, FAdd(x, k))
UndoSquash(y, k) == FDiv(FMul(y, k), FSub(1, y))
IntervalOk(lo, hi) == FGt(hi, lo)
SquashOk(x, k) == FGt(k, 0) /\ FGe(x, 0)
UndoSquashOk(y, k) == FGt(k, 0) /\ FGe(y, 0) /\ FLt(y, 1)
=============================================================================
