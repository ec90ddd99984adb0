------------------------------ MODULE MC_Store ------------------------------
(* Every history of saving, collecting, looking up and loading over a few    *)
(* iteration numbers and retention windows, with stray files around.         *)
EXTENDS Store, Sequences, TLC, Json
CONSTANTS MaxIter, Durations, MaxTorn
VARIABLES store, torn, newest, stray, act    \* newest: last iteration saved or -1 (history)
vars == <<store, torn, newest, stray, act>>
Its == 0..MaxIter

Init == store = {} /\ torn = {} /\ newest = -1 /\ stray = 0 /\ act = [op |-> "init"]
Save(i) == /\ store' = SaveTo(store, i, 0) /\ newest' = (IF i > newest THEN i ELSE newest)
           /\ torn' = torn \ {i} /\ act' = [op |-> "save", i |-> i] /\ UNCHANGED stray
Clean(at, d) == /\ store' = Collect(store, at, d) /\ torn' = CollectTorn(torn, at, d) /\ act' = [op |-> "clean", at |-> at, d |-> d]
                /\ UNCHANGED <<newest, stray>>
\* The process dies while it writes the file of iteration i.
Tear(i) == /\ Cardinality(torn \cup {i}) <= MaxTorn /\ torn' = torn \cup {i} /\ store' = Drop(store, i)
           /\ act' = [op |-> "tear", i |-> i] /\ UNCHANGED <<newest, stray>>
Reload == act' = [op |-> "reload"] /\ UNCHANGED <<store, torn, newest, stray>>
Look == act' = [op |-> "latest"] /\ UNCHANGED <<store, torn, newest, stray>>
Load(i) == i \notin torn /\ act' = [op |-> "load", i |-> i] /\ UNCHANGED <<store, torn, newest, stray>>
Stray == /\ stray < 2 /\ stray' = stray + 1 /\ act' = [op |-> "stray"] /\ UNCHANGED <<store, torn, newest>>
Next == \/ \E i \in Its : Save(i) \/ Load(i) \/ Tear(i)
        \/ \E i \in Its, d \in Durations : Clean(i, d)
        \/ Look \/ Reload \/ Stray
Spec == Init /\ [][Next]_vars

LatestIsHighest == Latest(store) = -1 \/ \A i \in Iterations(store) : i <= Latest(store)
OneContentEach == Cardinality(store) = Cardinality(Iterations(store))
\* Collection at the time of saving the newest never loses it, nor the window.
CollectionKeepsTheNewest ==
  \A d \in Durations : newest \in Iterations(store) =>
     /\ newest \in Iterations(Collect(store, newest, d))
     /\ \A i \in Iterations(store) : i >= newest - d => i \in Iterations(Collect(store, newest, d))
CollectionIsIdempotent ==
  \A at \in Its, d \in Durations : Collect(Collect(store, at, d), at, d) = Collect(store, at, d)
WiderWindowKeepsMore ==
  \A at \in Its, d \in Durations, e \in Durations : d <= e => Collect(store, at, d) \subseteq Collect(store, at, e)

NeverBoth == Iterations(store) \cap torn = {}
ResumesNoLaterThanTheName == Latest(store) <= LatestName(store, torn)
Obs == [its |-> Iterations(store), torn |-> torn, stray |-> stray]
View == <<store, torn, stray, newest>>
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
DursQuick == {0, 1, 3}
DursThorough == {0, 1, 2, 3, 7}
=============================================================================
