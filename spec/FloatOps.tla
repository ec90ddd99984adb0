----------------------------- MODULE FloatOps -----------------------------
(* IEEE-754 double arithmetic inside TLC.  A float is a string (Python repr *)
(* or Java Double.toString) or an integer.  The definitions below only give *)
(* the signatures; TLC evaluates the operators through the Java override    *)
(* java/FloatOps.java.  All operators are total: a non-number is NaN and    *)
(* every comparison with NaN is FALSE.                                      *)
EXTENDS Integers, Sequences
LOCAL S == STRING
FAdd(x, y) == CHOOSE z \in S : TRUE
FSub(x, y) == CHOOSE z \in S : TRUE
FMul(x, y) == CHOOSE z \in S : TRUE
FDiv(x, y) == CHOOSE z \in S : TRUE
FPow(x, y) == CHOOSE z \in S : TRUE
FMod(x, y) == CHOOSE z \in S : TRUE   \* floor modulo, sign of the divisor
FNeg(x)    == CHOOSE z \in S : TRUE
FAbs(x)    == CHOOSE z \in S : TRUE
FSqrt(x)   == CHOOSE z \in S : TRUE
FExp(x)    == CHOOSE z \in S : TRUE
FLog(x)    == CHOOSE z \in S : TRUE
FSin(x)    == CHOOSE z \in S : TRUE
FCos(x)    == CHOOSE z \in S : TRUE
FTan(x)    == CHOOSE z \in S : TRUE
FAsin(x)   == CHOOSE z \in S : TRUE
FAcos(x)   == CHOOSE z \in S : TRUE
FAtan(x)   == CHOOSE z \in S : TRUE
FAtan2(y, x) == CHOOSE z \in S : TRUE
FHypot(y, x) == CHOOSE z \in S : TRUE
FFloorF(x) == CHOOSE z \in S : TRUE
FMin(x, y) == CHOOSE z \in S : TRUE
FMax(x, y) == CHOOSE z \in S : TRUE
FFloor(x)  == CHOOSE z \in {0} : TRUE     \* floor, as a TLA+ integer
FLt(x, y)  == CHOOSE z \in BOOLEAN : TRUE
FLe(x, y)  == CHOOSE z \in BOOLEAN : TRUE
FGt(x, y)  == CHOOSE z \in BOOLEAN : TRUE
FGe(x, y)  == CHOOSE z \in BOOLEAN : TRUE
FEq(x, y)  == CHOOSE z \in BOOLEAN : TRUE
FFinite(x) == CHOOSE z \in BOOLEAN : TRUE
\* |x - y| <= rel * max(|x|, |y|) or |x - y| <= abs
FClose(x, y, rel, abs) == CHOOSE z \in BOOLEAN : TRUE
FSum(seq)    == CHOOSE z \in S : TRUE
FDot(p, q)   == CHOOSE z \in S : TRUE
FSolve(A, b) == CHOOSE z \in Seq(S) : TRUE   \* x with A x = b
===========================================================================
