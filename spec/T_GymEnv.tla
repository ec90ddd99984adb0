----------------------------- MODULE T_GymEnv -------------------------------
(* Judges recorded calls of an environment and of the parts it was given.     *)
EXTENDS TraceKit, GymEnv
StartDef == [own |-> TRUE, now |-> "", made |-> 0]
Of(calls, c) == SelectSeq(calls, LAMBDA x : x.c = c)
Idx(calls, c) == {i \in 1..Len(calls) : calls[i].c = c}
\* The serving constructor is made for this flight's winds and air, told its first state, and asked after that.
Fresh(e) == LET m == Idx(e.calls, "make") IN
  /\ m # {}
  /\ LET k == CHOOSE i \in m : \A j \in m : j <= i IN
       /\ e.calls[k].winds = e.winds /\ e.calls[k].air = e.air
       /\ LET o == {i \in Idx(e.calls, "observe") : i > k} IN
            /\ Cardinality(o) = 1
            /\ \A i \in o : e.calls[i].id = e.calls[k].id /\ e.calls[i].s = e.now /\ e.calls[i].wind = e.wind
                            /\ \E j \in Idx(e.calls, "get") : j > i /\ e.calls[j].id = e.calls[k].id
Told1(e) == LET o == Idx(e.calls, "observe") IN
  /\ Cardinality(o) = 1 /\ Idx(e.calls, "make") = {}
  /\ \A i \in o : e.calls[i].s = e.now /\ e.calls[i].wind = e.wind /\ e.calls[i].id = e.serving
                  /\ \E j \in Idx(e.calls, "get") : j > i
LastGet(e) == LET g == Of(e.calls, "get") IN g[Len(g)].tok
Info(e) == e.flags = Flags(e.status) /\ e.elapsed = e.now_elapsed
Quiet(st, e) == <<Clause("this-call-leaves-the-flight-alone", e.now = st.now /\ Idx(e.calls, "observe") = {}
                           /\ Idx(e.calls, "astep") = {} /\ Idx(e.calls, "areset") = {} /\ Idx(e.calls, "make") = {})>>
Begun(e) == IF e.own
            THEN <<Clause("each-flight-gets-its-own-features-of-its-winds-and-air", Fresh(e))>>
            ELSE <<Clause("given-arena-is-reset", Len(Of(e.calls, "areset")) = 1 /\ Idx(e.calls, "astep") = {})>>
JudgeDef(st, e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "new" ->
         <<Clause("environment-is-built", e.how = "ok"),
           Clause("winds-are-made-once", (e.how = "ok" /\ e.own) => e.fields = 1)>>
         \o (IF e.how = "ok" THEN Begun(e) \o <<Clause("flight-starts-at-once", e.status = "OK")>> ELSE <<>>)
    [] e.op = "reset" ->
         <<Clause("reset-answers", e.how = "ok" /\ e.shape = Answer([op |-> "reset", info |-> e.info]))>>
         \o (IF e.how # "ok" THEN <<>> ELSE Begun(e) \o
             <<Clause("first-observation-is-the-features", e.tok = LastGet(e)),
               Clause("first-info", (e.shape = "obs+info") => Info(e)),
               Clause("new-flights-are-alive-and-young", e.own => e.status = "OK" /\ FEq(e.now_elapsed, 0)),
               Clause("reset-gives-no-reward", Idx(e.calls, "reward") = {})>>)
    [] e.op = "step" /\ e.a \in Actions ->
         <<Clause("every-action-is-taken", e.how = "ok" /\ e.shape = "transition")>>
         \o (IF e.how # "ok" \/ e.shape # "transition" THEN <<>> ELSE
             <<Clause("observation-is-what-the-features-make-of-the-new-state", e.tok = LastGet(e)),
               Clause("the-action-has-its-meaning", e.cmd = Command(e.a)),
               Clause("reward-function-judges-the-new-state", \E i \in Idx(e.calls, "reward") : e.calls[i].s = e.now
                        /\ e.calls[i].r = e.reward),
               Clause("terminal-means-dead", e.terminal = (e.status \in Dead)),
               Clause("info-describes-the-new-state", Info(e))>>
             \o (IF e.own THEN <<Clause("features-are-told-every-state-once", Told1(e))>>
                 ELSE <<Clause("given-arena-is-stepped-once", Len(Of(e.calls, "astep")) = 1 /\ Idx(e.calls, "areset") = {}
                                 /\ Of(e.calls, "astep")[1].cmd = Command(e.a))>>))
    [] e.op = "step" -> <<Clause("unknown-actions-are-refused", e.how # "ok")>> \o Quiet(st, e)
    [] e.op = "with" -> <<Clause("context-manager", e.ret = Answer([op |-> "with", fails |-> e.fails]))>> \o Quiet(st, e)
    [] e.op \in {"seed", "render", "close"} ->
         <<Clause("returns-nothing", e.how = "ok" /\ e.ret = "none")>> \o Quiet(st, e)
    [] e.op = "spaces" ->
         <<Clause("three-actions", e.n = 3 /\ e.accepts = <<0, 1, 2>>),
           Clause("observation-space-is-the-features", e.obs_space),
           Clause("reward-range", FEq(e.range[1], 0) /\ FEq(e.range[2], 1)),
           Clause("unwrapped-is-itself", e.unwrapped)>> \o Quiet(st, e)
    [] e.op = "default" ->
         <<Clause("documented-observation", e.how = "ok" /\ e.dims = <<1099>> /\ e.dtype = "float32" /\ e.finite),
           Clause("observations-are-in-the-space", e.inside),
           Clause("rewards-are-in-the-range", ~e.hasreward \/ Between(e.reward, 0, 1))>>
    [] OTHER -> <<Clause("known-event", FALSE)>>
AfterDef(st, e) ==
  CASE e.op = "new" -> [own |-> e.own, now |-> e.now, made |-> 0]
    [] e.op \in {"begin", "default"} -> st
    [] OTHER -> [st EXCEPT !.now = e.now]
=============================================================================
