------------------------------ MODULE Registry ------------------------------
(* What the names a user can give stand for, where model files are looked    *)
(* for, and which of several bindings of a parameter counts.                 *)
EXTENDS Integers, Sequences, TLC

AgentClass == [random |-> "RandomAgent", mlp |-> "MLPAgent", dqn |-> "DQNAgent",
               perciatelli44 |-> "Perciatelli44", quantile |-> "QuantileAgent",
               finetune_perciatelli |-> "QuantileAgent", station_seeker |-> "StationSeekerAgent",
               random_walk |-> "RandomWalkAgent"]
AgentNames == DOMAIN AgentClass
GinFile == [mlp |-> "mlp.gin", dqn |-> "dqn.gin", quantile |-> "quantile.gin",
            finetune_perciatelli |-> "finetune_perciatelli.gin"]
DefaultGin(n) == IF n \in DOMAIN GinFile THEN GinFile[n] ELSE "None"
WindField == [simple |-> "SimpleStaticWindField", generative |-> "GenerativeWindField"]
Collector == [console |-> "ConsoleCollector", pickle |-> "PickleCollector", tensorboard |-> "TensorboardCollector"]

\* Shared by the learning agents (the configuration of the Nature paper).
Common == [gamma |-> "0.993", update_horizon |-> 5, min_replay_history |-> 500, update_period |-> 4,
           target_update_period |-> 100, layers |-> 8, hidden |-> 600, lr |-> "2e-06", eps |-> "2e-05",
           batch |-> 32, epsilon_eval |-> "0.0", checkpoint_duration |-> 5]
Config(n) ==
  CASE n = "dqn" -> Common @@ [epsilon_train |-> "0.01", outputs |-> 3]
    [] n = "quantile" -> Common @@ [epsilon_train |-> "0.0", outputs |-> 153, atoms |-> 51, explore |-> "0.8", reload |-> 0]
    [] n = "finetune_perciatelli" ->
         Common @@ [epsilon_train |-> "0.0", outputs |-> 153, atoms |-> 51, explore |-> "0.8", reload |-> 1]

\* A model file: an explicit path is the only one tried; otherwise the file of
\* the installed package, then the one below the working directory.
Search(given, there, package, default) ==
  IF given THEN (IF there THEN "path" ELSE "ValueError")
  ELSE IF package THEN "package" ELSE IF default THEN "default" ELSE "RuntimeError"

\* Parameter files are read in order, command-line bindings come last, and the
\* last binding of a parameter counts.
LastOf(s, none) == IF s = <<>> THEN none ELSE s[Len(s)]
Bound(own, extra, binds) == LastOf(own \o extra \o binds, "unbound")
=============================================================================
