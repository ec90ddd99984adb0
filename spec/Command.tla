------------------------------ MODULE Command -------------------------------
(* The command-line programs train and eval: what a command line means.      *)
(*                                                                           *)
(* A command line is a function from the flags that were given to their      *)
(* values.  A run of the training program owns the directory                 *)
(*     base_dir / agent / run_number                                         *)
(* and leaves one checkpoint per finished iteration there; a later command   *)
(* with the same three continues after the newest.  The evaluation program   *)
(* reads a checkpoint when told directory and number, plays the suite, and   *)
(* writes one file, whose name tells agent, checkpoint and shard.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Given(f, k) == k \in DOMAIN f
Opt(f, k, d) == IF Given(f, k) THEN f[k] ELSE d

Agent(f) == Opt(f, "agent", "dqn")
Wind(f) == Opt(f, "wind_field", "generative")
Shows(f) == Given(f, "renderer")
RenderPeriod(f) == Opt(f, "render_period", 10)
\* The last binding counts: command line, then the agent's file.
Label(f, own) == IF Given(f, "gin_bindings") THEN f.gin_bindings
                 ELSE IF Given(f, "agent_gin_file") THEN f.agent_gin_file ELSE own

\* --- train ---
EnvName(f) == Opt(f, "env_name", "BalloonLearningEnvironment-v0")
Home(f) == Agent(f) \o "/" \o ToString(Opt(f, "run_number", 1))
Iterations(f) == Opt(f, "num_iterations", 200)
PerIteration(f) == Opt(f, "episodes_per_iteration", 50)
StepLimit(f) == Opt(f, "max_episode_length", 960)
Collectors(f) == Opt(f, "collectors", <<"console">>)
KnownCollectors(f) == SelectSeq(Collectors(f), LAMBDA x : x \in {"console", "pickle", "tensorboard", "probe1", "probe2"})

Newest(disk, h) == IF h \in DOMAIN disk THEN disk[h] ELSE -1
Saves(f, newest) == [i \in 1..(IF Iterations(f) > newest + 1 THEN Iterations(f) - newest - 1 ELSE 0) |-> newest + i]
Episodes(f, newest) == Len(Saves(f, newest)) * PerIteration(f)
NewestAfter(f, newest) == IF Iterations(f) - 1 > newest THEN Iterations(f) - 1 ELSE newest
RendersOf(len, period) == (len + period - 1) \div period

\* --- eval ---
Suite(f) == Opt(f, "suite", "big_eval")
LoadsCheckpoint(f) == Given(f, "checkpoint_dir") /\ Given(f, "checkpoint_idx")
Shards(f) == Opt(f, "num_shards", 1)
Shard(f) == Opt(f, "shard_idx", 0)
BaseName(f) ==
  IF Given(f, "name_override") THEN f.name_override
  ELSE IF Given(f, "checkpoint_idx") THEN Agent(f) \o "_" \o ToString(f.checkpoint_idx)
  ELSE Agent(f)
FileName(f) == Suite(f) \o "/" \o BaseName(f)
               \o (IF Shards(f) > 1 THEN "_" \o ToString(Shard(f)) ELSE "") \o ".json"
=============================================================================
