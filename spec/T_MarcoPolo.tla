----------------------------- MODULE T_MarcoPolo ----------------------------
(* Judges recorded calls of the exploration wrapper.  Whether an episode     *)
(* explores is drawn inside: unless the probability decides it, the first    *)
(* action that could be exploratory shows it.                                *)
EXTENDS TraceKit, MarcoPolo
StartDef == [p |-> "0", k |-> 0, x |-> "unknown", eps |-> 0, xs |-> 0]

X(st, e) ==   \* what this event says about the episode
  CASE st.x # "unknown" -> st.x
    [] FEq(st.p, 0) -> "no"
    [] FEq(st.p, 1) -> "yes"
    [] InExploration(st.k + 1) -> IF Len(e.calls) > 0 THEN "yes" ELSE "no"
    [] OTHER -> "unknown"
Mine(st, e) == Actor(X(st, e) = "yes", st.k + 1)
Asked(e) == Len(e.calls) = 1 /\ e.calls[1].op = "step" /\ e.calls[1].obs = e.obs /\ e.calls[1].r = e.r

JudgeDef(st, e) ==
  CASE e.op = "new" -> <<Clause("is-created-as-configured", e.how = "ok"),
           Clause("explorer-is-made-for-this-problem",
             Len(e.calls) = 1 /\ e.calls[1].op = "made" /\ e.calls[1].na = 3 /\ e.calls[1].shape = <<2>>)>>
    [] e.op = "begin" ->
         <<Clause("episode-begins-with-the-learners-action", e.how = "ok" /\ e.out = e.a),
           Clause("exploratory-agent-is-begun-once-per-episode",
             Len(e.calls) = 1 /\ e.calls[1].op = "begin" /\ e.calls[1].obs = e.obs)>>
    [] e.op = "step" ->
         <<Clause("wrapper-never-fails", e.how = "ok"),
           Clause("learner-phase-keeps-the-learners-action", Mine(st, e) = "learner" => e.out = e.a),
           Clause("explorer-is-asked-only-in-its-phase", Mine(st, e) = "learner" => e.calls = <<>>),
           Clause("explorer-sees-the-reward-and-observation", Mine(st, e) = "explorer" => Asked(e)),
           Clause("exploration-phase-takes-the-explorers-action",
             Mine(st, e) = "explorer" => Len(e.calls) >= 1 /\ e.out = e.calls[Len(e.calls)].a),
           Clause("actions-are-valid", e.out \in 0..2)>>
    [] e.op = "chance" ->
         \* a binomial proportion, six standard deviations either way
         LET sd == FSqrt(FDiv(FMul(st.p, FSub(1, st.p)), st.eps)) IN
         <<Clause("episodes-explore-as-often-as-configured",
             FLe(FAbs(FSub(FDiv(st.xs, st.eps), st.p)), FMul(6, sd))),
           Clause("reproducible-from-the-seed", e.again = e.first)>>
    [] e.op = "plain" -> <<Clause("plain-exploration-changes-nothing", e.out = e.a)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

AfterDef(st, e) ==
  CASE e.op = "new" -> [StartDef EXCEPT !.p = e.p]
    [] e.op = "begin" -> [st EXCEPT !.k = 0, !.x = "unknown", !.eps = @ + 1]
    [] e.op = "step" -> [st EXCEPT !.k = @ + 1, !.x = X(st, e),
                         !.xs = IF st.x = "unknown" /\ X(st, e) = "yes" THEN @ + 1 ELSE @]
    [] OTHER -> st
=============================================================================
