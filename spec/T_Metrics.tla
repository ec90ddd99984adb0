----------------------------- MODULE T_Metrics ------------------------------
(* Judges what the collectors left behind (see Metrics.tla).                 *)
EXTENDS TraceKit, Metrics
\* disk: the episodes whose pickle files an earlier training left in the directory;
\* prev: what that training was (its curves stay).
StartDef == [m |-> M0(0, 0), fg |-> FALSE, fq |-> 1, told |-> <<>>, nr |-> 0, pickle |-> FALSE, disk |-> <<>>,
             prev |-> [m |-> M0(0, 0), fg |-> FALSE, fq |-> 1]]
HasEp(eps, n) == \E i \in 1..Len(eps) : eps[i].ep = n
\* Episodes played again replace the abandoned ones.
RECURSIVE Sorted(_)
Sorted(eps) == IF eps = <<>> THEN <<>>
               ELSE LET m == CHOOSE i \in 1..Len(eps) : \A j \in 1..Len(eps) : eps[i].ep <= eps[j].ep IN
                    <<eps[m]>> \o Sorted([i \in 1..Len(eps) - 1 |-> IF i < m THEN eps[i] ELSE eps[i + 1]])
OnDisk(st) == LET new == IF st.pickle THEN st.m.eps ELSE <<>> IN
              Sorted(SelectSeq(st.disk, LAMBDA x : ~HasEp(new, x.ep)) \o new)

Stat(e) == [k |-> e.k, a |-> e.a, r |-> e.r, t |-> e.t]
Told(st, e) == [st EXCEPT !.told = Append(@, e.op)]
AfterDef(st, e) ==
  CASE e.op = "new" -> [m |-> M0(e.ep0, e.na), fg |-> e.fg, fq |-> e.fq, told |-> <<>>, nr |-> e.nr, pickle |-> e.pickle,
                       disk |-> IF e.again THEN OnDisk(st) ELSE <<>>,
                       prev |-> [m |-> st.m, fg |-> st.fg, fq |-> st.fq]]
    [] e.op = "begin" -> [Told(st, e) EXCEPT !.m = MBegin(@)]
    [] e.op = "step" -> IF e.how = "ok" THEN [Told(st, e) EXCEPT !.m = MStep(@, Stat(e))] ELSE st
    [] e.op = "end" -> [Told(st, e) EXCEPT !.m = MEnd(@, Stat(e))]
    [] e.op \in {"pre", "fin"} -> Told(st, e)
    [] OTHER -> st

\* The lines of the console log about single steps.
ConsoleFine(st) == IF st.fg THEN SelectSeq(st.m.fine, LAMBDA f : ~f.final /\ (f.s.k % st.fq) = 0) ELSE <<>>
\* The points of the fine-grained reward curve.
CurveFine(st) == IF st.fg THEN SelectSeq(st.m.fine, LAMBDA f : f.final \/ (f.g % st.fq) = 0) ELSE <<>>

ConsoleClauses(st, e) ==
  LET eps == st.m.eps  fine == ConsoleFine(st)
      n == Len(e.eps)
      Share(i, a) == FDiv(Count(eps[i].all, a), Len(eps[i].all)) IN
  <<Clause("console-reports-every-episode-once", n = Len(eps)),
    Clause("console-episode-numbers", \A i \in 1..Min2(n, Len(eps)) : e.eps[i].ep = eps[i].ep),
    Clause("console-episode-reward", \A i \in 1..Min2(n, Len(eps)) :
             FClose(e.eps[i].reward, Total(eps[i].all), "0.0", "0.00501")),
    Clause("console-episode-length", \A i \in 1..Min2(n, Len(eps)) : e.eps[i].len = eps[i].len),
    Clause("console-action-distribution", \A i \in 1..Min2(n, Len(eps)) :
             /\ Len(e.eps[i].dist) = st.m.na
             /\ \A a \in 1..st.m.na : FClose(e.eps[i].dist[a], Share(i, a - 1), "1e-6", "1e-7")),
    Clause("console-fine-grained-steps", Len(e.steps) = Len(fine)),
    Clause("console-fine-grained-content", \A i \in 1..Min2(Len(e.steps), Len(fine)) :
             LET x == e.steps[i]  s == fine[i].s IN
             x.k = s.k /\ x.a = s.a /\ x.t = s.t /\ Close(x.r, s.r))>>

PickleClauses(st, e) ==
  LET eps == OnDisk(st)  n == Len(e.eps) IN
  <<Clause("pickle-one-file-per-episode", n = Len(eps)),
    Clause("pickle-file-numbers", \A i \in 1..Min2(n, Len(eps)) : e.eps[i].ep = eps[i].ep),
    Clause("pickle-holds-every-step", \A i \in 1..Min2(n, Len(eps)) : Len(e.eps[i].all) = Len(eps[i].all)),
    Clause("pickle-statistics", \A i \in 1..Min2(n, Len(eps)) :
             \A j \in 1..Min2(Len(e.eps[i].all), Len(eps[i].all)) :
               LET x == e.eps[i].all[j]  s == eps[i].all[j] IN
               x.k = s.k /\ x.a = s.a /\ x.t = s.t /\ Close(x.r, s.r))>>

\* The summary writer stores single precision numbers.
Curve(e, tag) == SelectSeq(e.pts, LAMBDA p : p.tag = tag)
BoardClauses(st, e) ==
  LET eps == st.m.eps  fine == CurveFine(st)
      R == Curve(e, "Train/EpisodeReward")  L == Curve(e, "Train/EpisodeLength")
      F == Curve(e, "Train/FineGrainedReward") IN
  <<Clause("board-reward-per-episode", Len(R) = Len(eps) /\ Len(L) = Len(eps)),
    Clause("board-episode-reward", \A i \in 1..Min2(Len(R), Len(eps)) :
             R[i].step = eps[i].ep /\ FClose(R[i].v, Total(eps[i].all), "1e-6", "1e-6")),
    Clause("board-episode-length", \A i \in 1..Min2(Len(L), Len(eps)) :
             L[i].step = eps[i].ep /\ FClose(L[i].v, eps[i].len, "1e-6", "0.0")),
    Clause("board-fine-grained-points", Len(F) = Len(fine)),
    Clause("board-fine-grained-content", \A i \in 1..Min2(Len(F), Len(fine)) :
             F[i].step = fine[i].g /\ FClose(F[i].v, fine[i].s.r, "1e-6", "1e-6")),
    Clause("board-nothing-else", Len(e.pts) = Len(R) + Len(L) + Len(F))>>

JudgeDef(st, e) ==
  CASE e.op = "new" -> <<Clause("collectors-are-built", e.how = "ok"),
                         Clause("summary-writer-is-found", e.writer = e.board)>>
    [] e.op \in {"pre", "begin", "end", "fin"} -> <<Clause("collectors-accept-the-event", e.how = "ok")>>
    [] e.op = "step" ->
         <<Clause("valid-actions-are-accepted", (e.a >= 0 /\ e.a < st.m.na) => e.how = "ok"),
           Clause("invalid-actions-are-refused", (e.console /\ (e.a < 0 \/ e.a >= st.m.na)) => e.how # "ok")>>
    [] e.op = "console" -> ConsoleClauses(st, e)
    [] e.op = "pickle" -> PickleClauses(st, e)
    [] e.op = "board" -> BoardClauses(IF e.earlier THEN st.prev ELSE st, e)
    [] e.op = "calls" -> 
         <<Clause("every-collector-is-told-once", Len(e.calls) = Len(st.told) * st.nr),
           Clause("collectors-are-told-in-the-registered-order",
             \A j \in 1..Len(st.told), i \in 1..st.nr : (j - 1) * st.nr + i <= Len(e.calls) =>
                e.calls[(j - 1) * st.nr + i] = <<i, st.told[j]>>)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>
=============================================================================
