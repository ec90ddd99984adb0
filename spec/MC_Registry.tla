----------------------------- MODULE MC_Registry ----------------------------
(* All combinations of present and missing model files and of bindings.      *)
EXTENDS Registry, TLC, Json
VARIABLE x
Cases ==
  [op : {"search"}, model : {"offlineskies22", "perciatelli44"}, how : {"arg", "gin", "none"},
   there : BOOLEAN, package : BOOLEAN, default : BOOLEAN]
  \cup [op : {"bind"}, own : {"none", "default", "explicit"}, extra : 0..2, binds : 0..2]
Init == x \in Cases
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
Find(c) == Search(c.how # "none", c.there, c.package, c.default)
\* An explicit path is never silently replaced; without one any file will do.
PathIsObeyed == (x.op = "search" /\ x.how # "none") => Find(x) \in {"path", "ValueError"}
FoundIfThere == (x.op = "search" /\ x.how = "none") => (Find(x) = "RuntimeError" <=> ~x.package /\ ~x.default)
PackageFirst == (x.op = "search" /\ x.how = "none" /\ x.package) => Find(x) = "package"
\* What is bound later is never overridden by what came before.
Fill(n, k) == [i \in 1..n |-> k + i]
LaterWins == (x.op = "bind") =>
  LET own == IF x.own = "none" THEN <<>> ELSE <<0>>
      v == Bound(own, Fill(x.extra, 10), Fill(x.binds, 20)) IN
  /\ x.binds > 0 => v = 20 + x.binds
  /\ (x.binds = 0 /\ x.extra > 0) => v = 10 + x.extra
  /\ (x.binds = 0 /\ x.extra = 0) => v = (IF x.own = "none" THEN "unbound" ELSE 0)
Emit == PrintT("INIT " \o ToJson(x))
=============================================================================
