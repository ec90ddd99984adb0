------------------------------- MODULE Store --------------------------------
(* The checkpoint store: a directory of checkpoints (iteration, content) and *)
(* files that are not checkpoints.  store is a set of <<iteration, content>>. *)
EXTENDS Integers, FiniteSets

\* torn: the iterations whose file a crash left incomplete.
Iterations(store) == {p[1] : p \in store}
Drop(store, i) == {p \in store : p[1] # i}
SaveTo(store, i, v) == {p \in store : p[1] # i} \cup {<<i, v>>}
Latest(store) == IF store = {} THEN -1
                 ELSE CHOOSE i \in Iterations(store) : \A j \in Iterations(store) : j <= i
\* The name of the latest checkpoint; resuming takes the latest complete one, Latest(store).
LatestName(store, torn) == IF torn \cup Iterations(store) = {} THEN -1
  ELSE CHOOSE i \in torn \cup Iterations(store) : \A j \in torn \cup Iterations(store) : j <= i
Stale(i, at, duration) == i < at - duration
Collect(store, at, duration) == {p \in store : ~Stale(p[1], at, duration)}
CollectTorn(torn, at, duration) == {i \in torn : ~Stale(i, at, duration)}
ContentOf(store, i) == (CHOOSE p \in store : p[1] = i)[2]
=============================================================================
