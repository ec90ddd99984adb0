------------------------------ MODULE Initial -------------------------------
(* Where and when an episode may start, and the laws of the draws.          *)
EXTENDS PressureRange, Sequences, FiniteSets
MaxRadius == 200000          \* m
MaxLat == 10                 \* degrees
MaxLng == 175
FirstTime == 1293840000      \* 2011-01-01 00:00 UTC
LastTime == 1419984000       \* 2014-12-31 00:00 UTC
LeastPressure == 6500
SafePressure == 11400        \* without knowing the atmosphere
LeastInfrared == 225
MostInfrared == 315
FullBattery == "2905.6"    \* 95 % of 3058.56 Wh
Degrees(r) == FDiv(FMul(r, 180), "3.141592653589793")

PlaceOk(k) == FLe(FAbs(Degrees(k.lat)), "10.0000001") /\ FLe(FAbs(Degrees(k.lng)), "175.0001")
TimeIn(t, lo, hi) == FLe(lo, t) /\ FLt(t, hi)
PressureIn(p, hi) == FLe(LeastPressure, p) /\ FLe(p, FAdd(hi, "1e-2"))
InfraredOk(ir) == FLe(LeastInfrared, ir) /\ FLe(ir, "315.0001")

\* ---- laws: the points that cut each law into ten equally likely pieces
Uniform(lo, hi) == [i \in 1..9 |-> FAdd(lo, FMul(FDiv(FSub(hi, lo), 10), i))]
\* Beta(1.2, 2)
RadiusCuts == << "0.078929809", "0.145224632", "0.210392960", "0.276875470", "0.346403135", "0.420886393", "0.503105338", "0.598159986", "0.718914884" >>
\* 300.9568 - 35 exp(0.68 Z), Z standard normal, given that it is at least 225
InverseCuts == << "241.032488347", "251.137210927", "258.566829920", "264.516604760", "269.568796829", "274.069090146", "278.272215769", "282.440828437", "287.054025033" >>
Laws == [radius |-> RadiusCuts, theta |-> Uniform("-3.141592653589793", "3.141592653589793"),
         lat |-> Uniform(-10, 10), lng |-> Uniform(-175, 175), time |-> Uniform(FirstTime, LastTime),
         level |-> Uniform(0, 1), lapse |-> Uniform(0, 1),
         slat |-> Uniform(-10, 10), slng |-> Uniform(-175, 175), stime |-> Uniform(FirstTime, LastTime),
         span |-> Uniform(0, 1), slevel |-> Uniform(0, 1), spressure |-> Uniform(LeastPressure, SafePressure),
         inverse |-> InverseCuts]
Piece(cuts, v) == 1 + Cardinality({i \in 1..9 : FLe(cuts[i], v)})

\* ---- counting draws
Names == DOMAIN Laws
NoCounts == [q \in Names |-> [i \in 1..10 |-> 0]]
Pairs == {<<"lapse", "lat">>, <<"lapse", "level">>, <<"lapse", "lng">>, <<"lapse", "radius">>, <<"lapse", "theta">>,
          <<"lapse", "time">>, <<"lat", "level">>, <<"lat", "lng">>, <<"lat", "radius">>, <<"lat", "theta">>,
          <<"lat", "time">>, <<"level", "lng">>, <<"level", "radius">>, <<"level", "theta">>, <<"level", "time">>,
          <<"lng", "radius">>, <<"lng", "theta">>, <<"lng", "time">>, <<"radius", "theta">>, <<"radius", "time">>,
          <<"theta", "time">>, <<"slat", "slng">>}
NoPairs == [q \in Pairs |-> 0]
Count(counts, q) == [n \in Names |-> IF n \in DOMAIN q
                       THEN [counts[n] EXCEPT ![Piece(Laws[n], q[n])] = @ + 1] ELSE counts[n]]
Upper(n, v) == Piece(Laws[n], v) > 5
CountPairs(pairs, q) == [pr \in Pairs |-> IF pr[1] \in DOMAIN q /\ pr[2] \in DOMAIN q
                           /\ (Upper(pr[1], q[pr[1]]) <=> Upper(pr[2], q[pr[2]])) THEN pairs[pr] + 1 ELSE pairs[pr]]

RECURSIVE Upto(_, _)
Upto(b, i) == IF i = 0 THEN 0 ELSE b[i] + Upto(b, i - 1)
\* Distance of the empirical distribution from the law, at the cuts, in units
\* of 1 / sqrt(number of draws): above 2.8 for one sample in three million.
Follows(b) ==
  LET n == Upto(b, 10) IN
  n = 0 \/ \A i \in 1..9 : FLe(FAbs(FSub(Upto(b, i), FMul("0.1", n * i))), FMul("2.8", FSqrt(n)))
\* Each piece holds its share: the sum of squares exceeds 60 for one sample in 10^9.
RECURSIVE Squares(_, _, _)
Squares(b, n, i) == IF i = 0 THEN 0 ELSE (10 * b[i] - n) * (10 * b[i] - n) + Squares(b, n, i - 1)
Shares(b) == LET n == Upto(b, 10) IN n = 0 \/ FLe(FDiv(Squares(b, n, 10), 10 * n), 60)
\* The uniform laws once more, in a hundred pieces: no stretch on which thirty
\* draws are expected stays empty.
Ranges == [theta |-> <<"-3.141592653589793", "3.141592653589793">>, lat |-> <<-10, 10>>, lng |-> <<-175, 175>>,
           time |-> <<FirstTime, LastTime>>, level |-> <<0, 1>>, lapse |-> <<0, 1>>, slat |-> <<-10, 10>>,
           slng |-> <<-175, 175>>, stime |-> <<FirstTime, LastTime>>, slevel |-> <<0, 1>>,
           spressure |-> <<LeastPressure, SafePressure>>]
NoFine == [q \in DOMAIN Ranges |-> [i \in 1..100 |-> 0]]
FinePiece(r, v) == LET k == FFloor(FMul(100, FDiv(FSub(v, r[1]), FSub(r[2], r[1])))) IN
                   IF k < 0 THEN 1 ELSE IF k > 99 THEN 100 ELSE k + 1
CountFine(fine, q) == [n \in DOMAIN Ranges |-> IF n \in DOMAIN q
                        THEN [fine[n] EXCEPT ![FinePiece(Ranges[n], q[n])] = @ + 1] ELSE fine[n]]
RECURSIVE UptoF(_, _)
UptoF(b, i) == IF i = 0 THEN 0 ELSE b[i] + UptoF(b, i - 1)
NoGap(b) == LET n == UptoF(b, 100)
                w == IF n = 0 THEN 100 ELSE 1 + 3000 \div n
            IN w >= 100 \/ \A i \in 1..(101 - w) : \E j \in i..(i + w - 1) : b[j] > 0
\* Halves of independent quantities agree half of the time (six deviations).
Independent(agree, n) == n = 0 \/ FLe(FAbs(FSub(agree, FDiv(n, 2))), FMul(3, FSqrt(n)))
=============================================================================
