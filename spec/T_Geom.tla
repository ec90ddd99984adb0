------------------------------- MODULE T_Geom -------------------------------
(* Stateless events about transforms and positions on the sphere.           *)
EXTENDS TraceKit, Transforms, SphereGeom
StartDef == 0
R(a, b) == FClose(a, b, "1e-12", "1e-13")
Each(xs, P(_)) == \A i \in 1..Len(xs) : P(i)
Vec(lat, lng) == << FMul(FCos(lat), FCos(lng)), FMul(FCos(lat), FSin(lng)), FSin(lat) >>
Chord(a, b) == FSqrt(FDot(<<FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3])>>, <<FSub(a[1], b[1]), FSub(a[2], b[2]), FSub(a[3], b[3])>>))
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.ev = "rescale" ->     \* xs -> ys (a scalar call has one element)
         IF ~IntervalOk(e.lo, e.hi) THEN << Clause("empty-interval-refused", e.exc # "ok") >>
         ELSE IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE << Clause("rescale", Len(e.ys) = Len(e.xs) /\ \A i \in 1..Len(e.xs) : R(e.ys[i], Rescale(e.xs[i], e.lo, e.hi))) >>
    [] e.ev = "unrescale" ->
         IF ~IntervalOk(e.lo, e.hi) THEN << Clause("empty-interval-refused", e.exc # "ok") >>
         ELSE << Clause("undo-rescale", e.exc = "ok" /\ FClose(e.y, UndoRescale(e.x, e.lo, e.hi), "1e-12", "1e-9")),
                 Clause("rescale-inverse", e.exc # "ok" \/ FClose(e.back, e.x, "1e-9", FDiv(FMul("1e-13", FAdd(FAbs(e.lo), FAbs(e.hi))), FSub(e.hi, e.lo)))) >>
    [] e.ev = "saturate" ->
         IF ~IntervalOk(e.lo, e.hi) THEN << Clause("empty-interval-refused", e.exc # "ok") >>
         ELSE << Clause("saturate", e.exc = "ok" /\ R(e.y, Saturate(e.x, e.lo, e.hi))),
                 Clause("saturated-in-unit-interval", e.exc # "ok" \/ Between(e.y, 0, 1)),
                 Clause("saturates-only-outside", e.exc # "ok" \/ FLe(e.x, e.lo) \/ FGe(e.x, e.hi) \/ (FGt(e.y, 0) /\ FLt(e.y, 1))) >>
    [] e.ev = "squash" ->
         IF \E i \in 1..Len(e.xs) : ~SquashOk(e.xs[i], e.k) THEN << Clause("squash-domain-refused", e.exc # "ok") >>
         ELSE IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE << Clause("squash", Len(e.ys) = Len(e.xs) /\ \A i \in 1..Len(e.xs) : R(e.ys[i], Squash(e.xs[i], e.k))),
                 Clause("squashed-in-unit-interval", \A i \in 1..Len(e.ys) : Between(e.ys[i], 0, 1)) >>
    [] e.ev = "unsquash" ->
         IF ~UndoSquashOk(e.y, e.k) THEN << Clause("undo-squash-domain-refused", e.exc # "ok") >>
         ELSE << Clause("undo-squash", e.exc = "ok" /\ FClose(e.x, UndoSquash(e.y, e.k), "1e-11", "0")),
                 Clause("undo-squash-not-negative", e.exc # "ok" \/ FGe(e.x, 0)),
                 Clause("squash-inverse", e.exc # "ok" \/ FClose(e.back, e.y, "1e-11", "1e-300")) >>
    [] e.ev = "mono" -> << Clause("monotone", \A i \in 1..(Len(e.ys) - 1) : FLe(e.ys[i], e.ys[i + 1])) >>
    [] e.ev = "offset" ->
         IF e.exc # "ok" THEN << Clause("must-not-raise", FALSE) >>
         ELSE LET x == Offset(e.lat, e.lng, e.x, e.y)
                  d == FDiv(FHypot(e.x, e.y), EarthKm)
                  polar == FGt(FAbs(x.lat), "1.4") \/ FGt(FAbs(e.lat), "1.4")
                  sep == FMul(2, FAsin(FMin(1, FDiv(Chord(Vec(e.lat, e.lng), Vec(e.rlat, e.rlng)), 2)))) IN
         << Clause("offset-position", FLe(Chord(Vec(e.rlat, e.rlng), Vec(x.lat, x.lng)), IF polar THEN "5e-8" ELSE "1e-11")),
            Clause("offset-distance", FGt(d, 3) \/ FClose(sep, d, "1e-6", IF polar THEN "1e-7" ELSE "1e-10")),
            Clause("north-is-north", FGt(d, "0.5") \/ polar \/ FLt(FAbs(e.y), 1) \/ FGt(FAbs(e.x), FAbs(e.y)) \/
               FGt(FAbs(e.lat), 1) \/ (FGt(e.y, 0) <=> FGt(e.rlat, e.lat))),
            Clause("offset-normalized", Between(e.rlat, FNeg(FDiv(PI, 2)), FDiv(PI, 2)) /\ Between(e.rlng, "-3.1415926535898", "3.1415926535898")) >>
    [] e.ev = "copy" -> << Clause("position-survives-copying", \A i \in 1..Len(e.got) : FLe(Chord(Vec(e.lat, e.lng), Vec(e.got[i][1], e.got[i][2])), "1e-14")) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) == s
=============================================================================
