----------------------------- MODULE T_Command -------------------------------
(* Judges recorded runs of the command-line programs (see Command.tla).      *)
(*   new    an empty base directory                                          *)
(*   train  one run of the training program                                  *)
(*   eval   one run of the evaluation program                                *)
(*   bad    a command line that must be refused                              *)
EXTENDS TraceKit, Command, SequencesExt

StartDef == [disk |-> <<>>]

Common(f, e) ==
  <<Clause("program-does-not-fail", e.how = "ok"),
    Clause("builds-one-agent-of-the-name-given", e.agents = <<Agent(f)>>),
    Clause("agent-knows-actions-and-observation-shape", e.na = 3 /\ e.shape = <<2>>),
    Clause("agent-gets-the-last-binding-given", e.label = Label(f, e.own)),
    Clause("builds-one-environment", Len(e.envs) = 1),
    Clause("environment-has-the-wind-field-given", e.winds = <<Wind(f)>>),
    Clause("environment-has-the-renderer-given", e.renderers = <<IF Shows(f) THEN f.renderer ELSE "none">>)>>

Sum(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)

TrainClauses(st, e) ==
  LET f == e.f  h == Home(f)  old == Newest(st.disk, h)  saves == Saves(f, old) IN
  Common(f, e) \o
  <<Clause("environment-is-the-one-named", e.envs = <<EnvName(f)>>),
    Clause("agent-trains", e.mode = "TRAIN"),
    Clause("continues-after-the-newest-checkpoint-of-this-run", e.reload = <<h \o "/checkpoints", old>>),
    Clause("saves-the-iterations-asked-for", e.saved = saves),
    Clause("saves-below-base-agent-run", \A i \in 1..Len(e.saveddirs) : e.saveddirs[i] = h \o "/checkpoints"),
    Clause("plays-the-episodes-asked-for", Len(e.lens) = Episodes(f, old)),
    Clause("episodes-end-at-the-limit-or-terminal",
           \A i \in 1..Len(e.lens) : e.lens[i] <= StepLimit(f) /\ (e.lens[i] < StepLimit(f) => e.terms[i])),
    Clause("shows-every-period",
           e.renders = Sum([i \in 1..Len(e.lens) |-> RendersOf(e.lens[i], RenderPeriod(f))])),
    Clause("collectors-are-the-ones-named", e.collectors = KnownCollectors(f)),
    Clause("collectors-write-below-base-agent-run", \A i \in 1..Len(e.collectdirs) : e.collectdirs[i] = h),
    Clause("picture-of-the-flight-is-saved-when-there-is-one", e.picture = (IF Shows(f) /\ Len(e.lens) > 0 THEN "right" ELSE "none")),
    Clause("touches-only-its-own-run", \A i \in 1..Len(e.homes) : e.homes[i] = h)>>

EvalClauses(st, e) ==
  LET f == e.f IN
  Common(f, e) \o
  <<Clause("evaluates-the-documented-environment", e.envs = <<"BalloonLearningEnvironment-v0">>),
    Clause("agent-is-evaluated", e.mode = "EVAL"),
    Clause("loads-the-checkpoint-given", e.loads = (IF LoadsCheckpoint(f) THEN <<<<f.checkpoint_dir, f.checkpoint_idx>>>> ELSE <<>>)),
    Clause("the-agent-loaded-is-the-one-that-plays", Len(e.lens) > 0 => e.mark = (IF LoadsCheckpoint(f) THEN f.checkpoint_idx ELSE -1)),
    Clause("evaluation-saves-no-checkpoint", e.saved = <<>>),
    Clause("plays-the-suite-given", Shards(f) = 1 => e.seeds = e.suite),
    Clause("a-shard-is-part-of-the-suite",
           \E i \in 0..Len(e.suite) : e.seeds = SubSeq(e.suite, i + 1, i + Len(e.seeds))),
    Clause("one-result-per-seed", e.results = e.seeds),
    Clause("episodes-have-the-lengths-of-the-suite",
           \A i \in 1..Len(e.lens) : e.lens[i] <= e.limit /\ (e.lens[i] < e.limit => e.terms[i])),
    Clause("result-tells-the-length", e.finals = e.lens),
    Clause("shows-every-period",
           e.renders = Sum([i \in 1..Len(e.lens) |-> RendersOf(e.lens[i], RenderPeriod(f))])),
    Clause("writes-the-one-file-named", e.wrote = <<FileName(f)>>),
    Clause("pretty-json-has-lines", Len(e.results) > 0 => e.lines = Opt(f, "pretty_json", FALSE))>>

JudgeDef(st, e) ==
  CASE e.op = "new" -> <<>>
    [] e.op = "train" -> TrainClauses(st, e)
    [] e.op = "eval" -> EvalClauses(st, e)
    [] e.op = "bad" ->
         <<Clause("refuses-what-it-does-not-know", e.how # "ok"),
           Clause("refused-command-plays-nothing", e.lens = <<>>),
           Clause("refused-command-writes-nothing", e.wrote = <<>> /\ e.saved = <<>>)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

AfterDef(st, e) ==
  CASE e.op = "new" -> StartDef
    [] e.op = "train" /\ Len(e.saved) > 0 -> [st EXCEPT !.disk = (Home(e.f) :> e.saved[Len(e.saved)]) @@ st.disk]
    [] OTHER -> st
=============================================================================
