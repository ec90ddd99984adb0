------------------------------ MODULE T_Learner -----------------------------
(* Judges recorded histories of learning agents.                             *)
EXTENDS TraceKit, Learner
StartDef == [m |-> "train", obs |-> "none", act |-> -1, fresh |-> TRUE]

WritePeriod == 2
Alike(q, w) == Len(q) = Len(w) /\ \A i \in 1..Len(q) : FClose(q[i], w[i], "1e-4", "1e-5")
Same(st, e) == e.n = st.n /\ e.steps = st.steps /\ e.p = st.p /\ e.t = st.t /\ e.o = st.o /\ e.store = st.store
Train(st, e, stored) ==
  LET n == st.n + stored
      trains == Trains(st.cfg, n, st.steps)
      syncs == Syncs(st.cfg, n, st.steps) IN
  <<Clause("one-training-step-per-action", e.steps = st.steps + 1),
    Clause("trains-when-due", trains => e.o # st.o),
    Clause("parameters-change-only-when-due", ~trains => e.p = st.p /\ e.o = st.o),
    Clause("target-follows-when-due", syncs => e.t = e.p),
    Clause("target-changes-only-when-due", ~syncs => e.t = st.t)>>

Choice(st, e) ==
  <<Clause("agent-never-fails", e.how = "ok"),
    Clause("action-is-valid", e.out \in 0..2)>>
  \o (IF e.how # "ok" THEN <<>> ELSE
  <<Clause("exploration-never-acts-in-evaluation", st.m = "eval" => e.calls = <<>>),
    Clause("evaluation-plays-the-greedy-action", st.m = "eval" /\ e.egreedy => Greedy(e.q, e.out)),
    Clause("exploration-is-consulted-once-per-training-action",
      st.m = "train" /\ e.wraps => Len(e.calls) = 1 /\ e.calls[1].op = e.op /\ e.calls[1].obs = e.obs
                                    /\ (e.op = "step" => e.calls[1].r = e.r)),
    Clause("exploration-has-the-last-word", st.m = "train" /\ Len(e.calls) > 0 => e.out = e.calls[Len(e.calls)].out),
    Clause("exploration-is-offered-the-greedy-action",
      st.m = "train" /\ e.greedy => \A i \in 1..Len(e.calls) : Greedy(e.q, e.calls[i].a)),
    Clause("without-exploration-the-choice-is-greedy", st.m = "train" /\ e.greedy /\ ~e.wraps => Greedy(e.q, e.out))>>)

JudgeDef(st, e) ==
  CASE e.op = "new" -> <<>>
    [] e.op \in {"begin", "step", "end"} ->
         LET want == Stored(st, e.op, IF e.op = "begin" THEN "0" ELSE e.r, IF e.op = "end" THEN e.term ELSE FALSE) IN
         (IF e.op = "end" THEN <<Clause("agent-never-fails", e.how = "ok")>> ELSE Choice(st, e))
         \o <<Clause("stores-the-transition-it-played", e.how = "ok" => e.added = want),
              Clause("transitions-are-counted", e.how = "ok" => e.n = st.n + Len(want))>>
         \o (IF e.how # "ok" THEN <<>>
             ELSE IF st.m = "eval" THEN <<Clause("frozen-in-evaluation", Same(st, e))>>
             ELSE IF e.op = "end" THEN <<Clause("ending-does-not-train",
                                          e.p = st.p /\ e.t = st.t /\ e.o = st.o /\ e.steps = st.steps)>>
             ELSE Train(st, e, Len(want)))
    [] e.op = "mode" -> <<Clause("changing-mode-changes-nothing-else", e.how = "ok" /\ Same(st, e))>>
    [] e.op = "save" -> <<Clause("saving-changes-nothing", e.how = "ok" /\ Same(st, e))>>
    [] e.op = "restart" ->
         <<Clause("checkpoint-restores-parameters", e.how = "ok" /\ e.p = st.sav.p /\ e.t = st.sav.t),
           Clause("checkpoint-restores-optimiser", e.o = st.sav.o),
           Clause("checkpoint-restores-counters", e.steps = st.sav.steps /\ e.n = st.sav.n),
           Clause("checkpoint-restores-replay", e.store = st.sav.store)>>
    [] e.op = "twin" -> <<>>
    [] e.op = "both" ->   \* the agent beside the algorithm it wraps
         LET k == e.what = "act" /\ e.m = "train" /\ Trains(st.cfg, e.n, e.was)
             due == k /\ e.was > 0 /\ e.was % WritePeriod = 0 IN
         <<Clause("agent-never-fails", e.how = "ok"),
           Clause("acts-as-its-algorithm", e.x = e.y),
           Clause("learns-what-its-algorithm-learns", \A i \in 1..2 : Alike(e.a[i], e.b[i])),
           Clause("optimises-as-its-algorithm", Alike(e.a[3], e.b[3])),
           Clause("loss-is-reported-when-due",
             e.writes => IF due THEN Len(e.got) = 1 /\ e.got[1].step = e.was /\ Len(e.ref) = 1 /\ FClose(e.got[1].v, e.ref[1], "1e-5", "1e-9") ELSE e.got = <<>>)>>
    [] e.op = "net" ->
         LET y == Forward(e.x, e.layers, 1)
             q == IF e.atoms = 0 THEN y ELSE Values(y, e.atoms) IN
         <<Clause("network-has-the-configured-shape", e.shape = e.want),
           Clause("network-computes-dense-layers-with-relu",
             Len(e.q) = Len(q) /\ \A i \in 1..Len(q) : FClose(e.q[i], q[i], "1e-4", "1e-5"))>>
         \o (IF e.atoms = 0 THEN <<>> ELSE
             <<Clause("quantiles-per-action-in-order",
                \A a \in 1..(Len(y) \div e.atoms), k \in 1..e.atoms :
                  FClose(e.logits[a][k], y[(a - 1) * e.atoms + k], "1e-4", "1e-5"))>>)
    \* the multi-layer perceptron agent, here with a single (linear) layer
    [] e.op = "mlp" ->
         LET d(i, a) == FSub(e.after.w[i][a], e.before.w[i][a])
             q(x, a) == FAdd(FDot(x, Column(e.before.w, a)), e.before.b[a])
             delta == FSub(q(e.s, e.a + 1), FAdd(e.r, FMul(e.gamma, q(e.s2, e.out + 1)))) IN
         <<Clause("agent-never-fails", e.how = "ok"),
           Clause("action-is-valid", e.out \in 0..2),
           Clause("choice-is-greedy", Greedy([a \in 1..3 |-> q(e.s2, a)], e.out)),
           Clause("frozen-in-evaluation", e.m = "eval" => e.after = e.before),
           \* the visited state's row moves to the target, the others stay
           Clause("learns-from-the-last-state-and-action", e.m = "train" =>
             FClose(d(e.si, e.a + 1), FMul(FMul(-2, e.lr), delta), "1e-3", "1e-5")),
           Clause("learns-nothing-about-other-actions", e.m = "train" =>
             \A i \in 1..Len(e.s), a \in 1..3 :
               (i # e.si /\ i # e.s2i) \/ (a # e.a + 1 /\ a # e.out + 1) => FLe(FAbs(d(i, a)), "1e-7"))>>
    [] e.op = "mlpend" -> <<Clause("ending-does-not-train", e.how = "ok" /\ e.after = e.before)>>
    [] e.op = "random" ->
         LET sd == FMul(6, FSqrt(FMul(e.n, FMul(FDiv(1, e.na), FSub(1, FDiv(1, e.na)))))) IN
         <<Clause("random-agent-stays-in-range", e.outside = 0 /\ Len(e.counts) = e.na),
           Clause("random-agent-is-uniform",
             \A i \in 1..Len(e.counts) : FLe(FAbs(FSub(e.counts[i], FDiv(e.n, e.na))), FAdd(sd, 1)))>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

Carry(st, e) == [n |-> e.n, steps |-> e.steps, p |-> e.p, t |-> e.t, o |-> e.o, store |-> e.store]
AfterDef(st, e) ==
  CASE e.op = "new" -> [m |-> "train", obs |-> -1, act |-> -1, cfg |-> e.cfg, sav |-> Carry(st, e)] @@ Carry(st, e)
    [] e.op \in {"begin", "step"} -> Carry(st, e) @@ [st EXCEPT !.obs = e.obs, !.act = e.out]
    [] e.op = "twin" -> [m |-> "train", obs |-> -1, act |-> -1, cfg |-> e.cfg]
    [] e.op = "end" -> Carry(st, e) @@ st
    [] e.op = "mode" -> Carry(st, e) @@ [st EXCEPT !.m = e.m]
    [] e.op = "save" -> [st EXCEPT !.sav = Carry(st, e)]
    [] e.op = "restart" -> Carry(st, e) @@ [st EXCEPT !.m = "train"]
    [] OTHER -> st
=============================================================================
