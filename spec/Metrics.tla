------------------------------ MODULE Metrics -------------------------------
(* What the metric collectors record.  The state is the history of the       *)
(* statistics they were given: finished episodes (each with its number and   *)
(* the statistics in order, the final one included) and the current one.     *)
(* The final statistics of an episode count once more: the collectors are    *)
(* told about the last step twice, and record both (pinned by the tests).    *)
EXTENDS Integers, Sequences, FloatOps

M0(ep0, na) == [ep0 |-> ep0, na |-> na, eps |-> <<>>, cur |-> <<>>, g |-> 0, fine |-> <<>>]
CurrentEpisode(m) == m.ep0 + Len(m.eps)
MBegin(m) == [m EXCEPT !.cur = <<>>]
\* g counts the statistics since the start of training; fine holds them all
\* with the global step they were reported at.
MStep(m, s) == [m EXCEPT !.cur = Append(@, s), !.g = @ + 1,
                         !.fine = Append(@, [g |-> m.g, s |-> s, final |-> FALSE])]
MEnd(m, s) == [m EXCEPT !.eps = Append(@, [ep |-> CurrentEpisode(m), all |-> Append(m.cur, s), len |-> s.k]),
                        !.cur = <<>>, !.g = @ + 1,
                        !.fine = Append(@, [g |-> m.g, s |-> s, final |-> TRUE])]

Total(all) == FSum([i \in 1..Len(all) |-> all[i].r])
Count(all, a) == Len(SelectSeq(all, LAMBDA s : s.a = a))
=============================================================================
