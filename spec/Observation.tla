----------------------------- MODULE Observation ----------------------------
(* The observation: documented encodings of the balloon state and of the    *)
(* wind column, and the reward.                                             *)
(* s: recorded state (x y p sp charge last paused acsw lat lng ts rise set) *)
(* with latitude and longitude of the station in radians.                   *)
EXTENDS Thermal
PMin == 5000
PMax == 14000

Rescale(v, lo, hi) == FDiv(FSub(v, lo), FSub(hi, lo))
Clip01(v) == FMax(0, FMin(1, v))
Squash(v, c) == FDiv(v, FAdd(v, c))

Soc(k, s) == FDiv(s.charge, k.cap)
PRatio(s) == FDiv(FAdd(s.p, FMax(s.sp, 0)), s.p)
SunOf(k, s) == LET o == Offset(k.lat, k.lng, FDiv(s.x, 1000), FDiv(s.y, 1000)) IN SolarAt(o.lat, o.lng, s.ts)
Excess(k, s, sun) == FGt(SolarPower(sun.el, s.p), k.dload) /\ FGt(Soc(k, s), "0.99")
\* How far the excess-energy test is from changing its mind.
ExcessMargin(k, s, sun) ==
  FMin(FDiv(FAbs(FSub(SolarPower(sun.el, s.p), k.dload)), 100), FAbs(FSub(Soc(k, s), "0.99")))
DistKm(s) == FDiv(FHypot(s.x, s.y), 1000)

\* Power [W] to use when descending: rows are pressure-ratio intervals.
RatioCuts == <<"1.08", "1.11", "1.14", "1.17", "1.2", "1.23", "1.26">>
PowerRows == << [c |-> <<"0.3", "0.4", "0.5">>, w |-> <<0, 150, 175, 200>>],
                [c |-> <<"0.3", "0.4", "0.7">>, w |-> <<0, 200, 200, 225>>],
                [c |-> <<"0.3", "0.4", "0.6">>, w |-> <<0, 225, 225, 250>>],
                [c |-> <<"0.3", "0.4", "0.5">>, w |-> <<0, 200, 225, 250>>],
                [c |-> <<"0.3", "0.4", "0.5">>, w |-> <<0, 225, 250, 275>>],
                [c |-> <<"0.4", "0.5">>, w |-> <<0, 275, 300>>],
                [c |-> <<"0.5", "0.6">>, w |-> <<0, 300, 325>>],
                [c |-> <<"0.5", "0.6">>, w |-> <<0, 325, 350>>] >>
RECURSIVE CountLe(_, _, _)   \* how many cuts are at most v
CountLe(cuts, v, i) == IF i > Len(cuts) THEN 0 ELSE (IF FLe(cuts[i], v) THEN 1 ELSE 0) + CountLe(cuts, v, i + 1)
PowerToUse(ratio, soc) ==
  LET row == PowerRows[CountLe(RatioCuts, ratio, 1) + 1] IN row.w[CountLe(row.c, soc, 1) + 1]
RECURSIVE NearCut(_, _, _)
NearCut(cuts, v, i) == i <= Len(cuts) /\ (FLt(FAbs(FSub(cuts[i], v)), "1e-9") \/ NearCut(cuts, v, i + 1))
PowerTableSettled(ratio, soc) ==
  /\ ~NearCut(RatioCuts, ratio, 1)
  /\ ~NearCut(PowerRows[CountLe(RatioCuts, ratio, 1) + 1].c, soc, 1)

\* Phase of the solar cycle: day maps to [0, pi], night to [pi, 2 pi].
Day1 == 86400
SunPhase(s) ==
  IF FLt(s.set, s.rise)
    THEN FMul(PI, FDiv(FSub(s.ts, FSub(s.rise, Day1)), FSub(s.set, FSub(s.rise, Day1))))
    ELSE FAdd(PI, FMul(PI, FDiv(FSub(s.ts, FSub(s.set, Day1)), FSub(s.rise, FSub(s.set, Day1)))))

B01(b) == IF b THEN 1 ELSE 0
Ambient(k, s) ==
  LET sun == SunOf(k, s)
      ph == SunPhase(s)
      hd == FAtan2(FNeg(s.x), FNeg(s.y)) IN
  << Clip01(Rescale(s.p, PMin, PMax)), Soc(k, s), Clip01(Rescale(sun.el, -90, 90)),
     FSin(ph), FCos(ph), FSin(hd), FCos(hd), Squash(DistKm(s), 250),
     B01(s.last = "UP"), B01(s.last = "STAY"), B01(s.last = "DOWN"),
     B01(s.paused), B01(~s.paused), B01(Excess(k, s, sun)),
     Clip01(Rescale(PowerToUse(PRatio(s), Soc(k, s)), 100, 300)), PRatio(s) >>
AmbientNames == << "pressure", "battery", "sun-elevation", "sin-solar-cycle", "cos-solar-cycle",
  "sin-heading", "cos-heading", "distance", "last-up", "last-stay", "last-down", "paused", "not-paused",
  "excess-energy", "power-to-use", "pressure-ratio" >>

\* ---- wind column: slot j of 361 shows pressure level centre + j - 181 (0-based levels)
NLevels == 181
LevelPressure(i) == 5000 + 50 * i                  \* i in 0..180
CentreLevel(p) == LET q == FMax(PMin, FMin(PMax, p)) IN FFloor(FAdd(FDiv(FSub(q, PMin), 50), "0.5"))
CentreIsTie(p) == LET q == FDiv(FSub(FMax(PMin, FMin(PMax, p)), PMin), 50) IN
                  FLt(FAbs(FSub(FSub(q, FFloorF(q)), "0.5")), "1e-9")
SlotLevel(p, slot) == CentreLevel(p) + slot - 180  \* slot in 0..360
Tol == "1e-5"
\* Angle in [0, 1] between the wind and the direction to the station.
AngleFeature(s, u, v) ==
  LET d == FHypot(s.x, s.y)  m == FHypot(u, v) IN
  IF FLt(d, Tol) THEN 0
  ELSE IF FLt(m, Tol) THEN 1
  ELSE LET c == FDiv(FNeg(FAdd(FMul(s.x, u), FMul(s.y, v))), FMul(FAdd(d, Tol), FAdd(m, Tol))) IN
       FDiv(FAcos(FMax(-1, FMin(1, c))), PI)
WindTriple(s, w) == << w.dev, AngleFeature(s, w.u, w.v), Squash(FHypot(w.u, w.v), 30) >>
Unreachable == <<0, 1, 1>>

\* ---- reward
RewardOf(k, s, r) ==     \* r: [radius, dropoff, halflife] in km
  LET d == DistKm(s)
      base == IF FLe(d, r.radius) THEN 1
              ELSE FMul(r.dropoff, FPow(2, FNeg(FDiv(FSub(d, r.radius), r.halflife))))
  IN IF s.last = "DOWN" /\ ~Excess(k, s, SunOf(k, s))
       THEN FMul(base, FSub("0.95", FMul("0.3", Clip01(Rescale(s.acsw, 100, 300)))))
       ELSE base
=============================================================================
