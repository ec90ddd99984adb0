----------------------------- MODULE T_Registry -----------------------------
(* Judges recorded uses of names, model files, bindings and registration.    *)
EXTENDS TraceKit, Registry
StartDef == [x |-> 0]
RECURSIVE Known(_, _)
Known(q, k) == IF k = 0 THEN <<>>
               ELSE Known(q, k - 1) \o (IF q[k] \in DOMAIN Collector THEN <<Collector[q[k]]>> ELSE <<>>)
Top(q) == CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : FGe(v, q[i])
JudgeDef(st, e) ==
  CASE e.op = "search" ->
         <<Clause("model-file-is-found-as-documented", e.out = Search(e.how # "none", e.there, e.package, e.default))>>
    [] e.op = "bind" ->
         <<Clause("binding-succeeds", e.ok = "ok"),
           Clause("last-binding-counts", e.out = Bound(e.own, e.extra, e.binds))>>
    [] e.op = "unbindable" -> <<Clause("unknown-binding-is-refused", e.ok # "ok")>>
    [] e.op = "agent" ->
         <<Clause("agent-is-built", e.how = "ok"),
           Clause("agent-is-the-one-named", e.how = "ok" => e.cls = AgentClass[e.name]),
           Clause("agent-acts-within-its-action-count", e.how = "ok" => \A i \in 1..Len(e.acts) : e.acts[i] \in 0..(e.na - 1))>>
         \o (IF e.how = "ok" /\ Has(e, "cfg")
             THEN [i \in 1..Len(e.keys) |->
                     Clause("agent-is-configured-as-published",
                            LET w == Config(e.name)[e.keys[i]]  g == e.cfg[e.keys[i]] IN
                            FClose(g, w, "1e-6", 0))]
             ELSE <<>>)
    [] e.op = "gin" -> <<Clause("default-parameter-file", e.file = DefaultGin(e.name)),
                         Clause("explicit-parameter-file-wins", e.explicit = "some.gin")>>
    [] e.op = "unknown" -> <<Clause("unknown-name-is-refused", e.how = "ValueError")>>
    [] e.op = "wind" -> <<Clause("wind-field-is-the-one-named", e.how = "ok" /\ e.cls = WindField[e.name]),
                          Clause("every-call-builds-a-new-wind-field", e.fresh)>>
    [] e.op = "collectors" -> <<Clause("collectors-are-the-ones-named", e.how = "ok" /\ e.out = Known(e.names, Len(e.names)))>>
    [] e.op = "register" ->
         <<Clause("registering-is-idempotent", e.how = "ok" /\ e.count = 1 /\ e.warnings = 0)>>
    [] e.op = "make" ->
         <<Clause("environment-can-be-made", e.how = "ok"),
           Clause("environment-has-the-declared-spaces", e.how = "ok" => e.actions = 3 /\ e.shape = e.want /\ e.cls = "BalloonEnv"),
           Clause("environment-uses-the-given-wind-field", e.how = "ok" => e.wind),
           Clause("environment-uses-the-given-renderer", e.how = "ok" => e.rendered),
           Clause("environment-runs", e.how = "ok" => e.ran)>>
    [] e.op = "frozen" ->
         <<Clause("perciatelli-plays-its-models-best-action", e.how = "ok" /\ e.a \in 0..2 /\ FGe(e.q[e.a + 1], FSub(Top(e.q), "1e-4")))>>
    [] e.op = "refuse" -> <<Clause("perciatelli-refuses-other-shapes", e.how = "ValueError")>>
    [] e.op = "weights" ->
         <<Clause("finetuning-starts-from-the-models-weights", e.how = "ok" /\ \A i \in 1..Len(e.same) : e.same[i]),
           Clause("finetuning-target-starts-there-too", e.target)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>
AfterDef(st, e) == st
=============================================================================
