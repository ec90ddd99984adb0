------------------------------ MODULE T_Train -------------------------------
(* Judges recorded runs of the training loop (see Train.tla).  The agent and *)
(* the environment form one automaton, every metric collector another; their *)
(* events may interleave in any way that respects what each one knows.       *)
EXTENDS TraceKit, Train
NC == 3   \* collectors at most

C0 == [on |-> FALSE, pre |-> FALSE, fin |-> FALSE, ep0 |-> 0, begun |-> 0, ended |-> 0, k |-> 0, in |-> FALSE]
StartDef == [cfg |-> [n |-> 0, e |-> 0, l |-> 0, p |-> 1, nc |-> 0], disk |-> {}, start |-> 0, pc |-> "down",
             it |-> 0, ep |-> 0, k |-> 0, a |-> 0, ax |-> 0, r |-> "0.0", t |-> FALSE, obs |-> 0,
             log |-> <<>>, prevlog |-> <<>>, due |-> FALSE, ended |-> 0, resets |-> 0, trainmode |-> FALSE,
             c |-> [i \in 1..NC |-> C0], saving |-> -1]

Run(st, e) == [StartDef EXCEPT !.cfg = e.cfg, !.disk = IF e.fresh THEN {} ELSE st.disk, !.pc = "up"]
Went(st, w) == [st EXCEPT !.pc = w.pc, !.it = w.it, !.ep = w.ep]

\* Which statistics of the final step a collector may be told: see DESIGN.md.
LogOf(st, i) == IF st.c[i].begun = st.resets THEN st.log
                ELSE IF st.c[i].begun = st.resets - 1 THEN st.prevlog ELSE <<>>

CollectorDef(st, e) ==
  LET i == e.i  c == st.c[i]  L == LogOf(st, i) IN
  CASE e.ev = "new" ->
         <<Clause("collector-is-built-once", ~c.on),
           Clause("collector-gets-the-base-directory", e.home),
           Clause("collector-numbering-continues-from-the-checkpoint", e.ep0 = st.start * st.cfg.e),
           Clause("collector-knows-the-actions", e.na = 3)>>
    [] e.ev = "pre" ->
         <<Clause("collector-is-announced-once", c.on /\ ~c.pre /\ c.begun = 0)>>
    [] e.ev = "begin" ->
         <<Clause("collector-episode-begins-in-order", c.pre /\ ~c.fin /\ ~c.in),
           Clause("collector-episode-is-the-one-played", c.begun \in {st.resets - 1, st.resets})>>
    [] e.ev = "step" ->
         <<Clause("collector-step-inside-episode", c.in),
           Clause("collector-step-is-numbered-in-order", e.k = c.k),
           Clause("collector-step-was-played", c.k < Len(L)),
           Clause("collector-step-statistics", c.k < Len(L) =>
                    (e.a = L[c.k + 1].a /\ e.r = L[c.k + 1].r /\ e.t = L[c.k + 1].t))>>
    [] e.ev = "end" ->
         <<Clause("collector-episode-ends-once", c.in),
           Clause("collector-saw-every-step", c.k = Len(L)),
           Clause("collector-episode-length", e.k = Len(L)),
           Clause("collector-final-reward", e.r = (IF Len(L) = 0 THEN "0.0" ELSE L[Len(L)].r)),
           Clause("collector-final-terminal", e.t = (IF Len(L) = 0 THEN FALSE ELSE L[Len(L)].t)),
           Clause("collector-final-action",
                  IF Len(L) = 0 THEN e.a = st.a
                  ELSE e.a = L[Len(L)].a \/ (~L[Len(L)].t /\ e.a = st.a))>>
    [] e.ev = "fin" ->
         <<Clause("collector-is-shut-down-once", c.pre /\ ~c.fin /\ ~c.in),
           Clause("collector-is-shut-down-after-training", st.pc = "fin" /\ c.ended = st.ended)>>
    [] OTHER -> <<Clause("collector-event-is-known", FALSE)>>

CollectorAfter(st, e) ==
  LET i == e.i  c == st.c[i] IN
  [st EXCEPT !.c[i] =
    CASE e.ev = "new" -> [C0 EXCEPT !.on = TRUE, !.ep0 = e.ep0]
      [] e.ev = "pre" -> [c EXCEPT !.pre = TRUE]
      [] e.ev = "begin" -> [c EXCEPT !.in = TRUE, !.begun = c.begun + 1, !.k = 0]
      [] e.ev = "step" -> [c EXCEPT !.k = c.k + 1]
      [] e.ev = "end" -> [c EXCEPT !.in = FALSE, !.ended = c.ended + 1]
      [] e.ev = "fin" -> [c EXCEPT !.fin = TRUE]
      [] OTHER -> c]

JudgeDef(st, e) ==
  CASE e.op = "run" -> <<>>
    [] e.op = "reload" ->
         <<Clause("checkpoint-is-looked-up-once-per-run", st.pc = "up"),
           Clause("resumes-from-the-newest-complete-checkpoint", e.got = NewestOf(st.disk)),
           Clause("restores-what-that-checkpoint-held", e.mark = NewestOf(st.disk))>>
    [] e.op = "mode" -> <<Clause("trains-in-training-mode", e.m = "TRAIN")>>
    [] e.op = "reset" ->
         <<Clause("episode-starts-when-the-previous-one-is-over", st.pc = "begin")>>
    [] e.op = "begin" ->
         <<Clause("agent-begins-once-per-episode", st.pc = "reset"),
           Clause("agent-is-in-training-mode", st.trainmode),
           Clause("agent-gets-the-initial-observation", e.obs = st.obs),
           Clause("agent-gets-the-first-summary-writer", e.writer = IF st.cfg.nc >= 2 THEN "w2" ELSE "none")>>
    [] e.op = "step" ->
         <<Clause("environment-steps-only-when-due", st.pc = "step"),
           Clause("environment-gets-the-agents-last-action", e.a = st.a),
           Clause("episode-respects-the-step-limit", st.k < st.cfg.l),
           Clause("step-is-rendered-at-the-period", ~st.due)>>
    [] e.op = "act" ->
         <<Clause("agent-steps-once-per-environment-step", st.pc = "act"),
           Clause("agent-gets-the-reward", e.r = st.r),
           Clause("agent-gets-the-observation", e.obs = st.obs)>>
    [] e.op = "end" ->
         <<Clause("episode-ends-when-terminal-or-at-the-limit", st.pc = "end"),
           Clause("episode-ends-with-the-last-reward", e.r = st.r),
           Clause("episode-end-says-whether-terminal", e.t = st.t),
           Clause("last-step-is-rendered-at-the-period", ~st.due)>>
    [] e.op = "render" -> <<Clause("renders-at-the-period-only", st.due)>>
    [] e.op = "save" ->
         <<Clause("checkpoint-after-all-episodes-of-an-iteration", st.pc = "save"),
           Clause("checkpoint-goes-below-the-base-directory", e.home),
           Clause("checkpoint-number-is-the-iteration", e.it = st.it)>>
    [] e.op = "saved" ->
         <<Clause("checkpoint-is-on-disk", e.it \in {e.files[i] : i \in 1..Len(e.files)})>>
    [] e.op = "c" -> CollectorDef(st, e)
    [] e.op = "crash" -> <<>>
    [] e.op = "return" ->
         <<Clause("returns-when-all-iterations-are-done", st.pc = "fin"),
           Clause("every-episode-was-played", st.start < st.cfg.n =>
                    st.ended = (st.cfg.n - st.start) * st.cfg.e),
           Clause("collectors-were-told-everything",
                  \A i \in 1..st.cfg.nc : st.c[i].fin /\ st.c[i].begun = st.resets /\ st.c[i].ended = st.ended)>>
    [] e.op = "raised" -> <<Clause("training-does-not-fail", FALSE)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

AfterDef(st, e) ==
  CASE e.op = "run" -> Run(st, e)
    [] e.op = "reload" ->
         LET s == StartIteration(st.disk) IN
         [Went(st, Enter(st.cfg, s, 0)) EXCEPT !.start = s]
    [] e.op = "mode" -> [st EXCEPT !.trainmode = e.m = "TRAIN"]
    [] e.op = "reset" -> [st EXCEPT !.pc = "reset", !.obs = e.obs, !.k = 0, !.r = "0.0", !.t = FALSE,
                          !.prevlog = st.log, !.log = <<>>, !.due = FALSE, !.resets = st.resets + 1]
    [] e.op = "begin" -> [st EXCEPT !.pc = AfterBegin(st.cfg), !.a = e.a]
    [] e.op = "step" -> [st EXCEPT !.pc = AfterEnvStep(e.t), !.k = st.k + 1, !.r = e.r, !.t = e.t, !.obs = e.obs,
                         !.log = Append(st.log, [a |-> e.a, r |-> e.r, t |-> e.t]),
                         !.due = (st.k % st.cfg.p) = 0]
    [] e.op = "act" -> [st EXCEPT !.pc = AfterAct(st.cfg, st.k), !.a = e.a]
    [] e.op = "end" -> [Went(st, Enter(st.cfg, st.it, st.ep + 1)) EXCEPT !.ended = st.ended + 1]
    [] e.op = "render" -> [st EXCEPT !.due = FALSE]
    [] e.op = "saved" -> [Went(st, Enter(st.cfg, st.it + 1, 0)) EXCEPT !.disk = st.disk \cup {e.it}]
    [] e.op = "c" -> CollectorAfter(st, e)
    [] e.op \in {"crash", "return", "raised"} -> [st EXCEPT !.pc = "down"]
    [] OTHER -> st
=============================================================================
