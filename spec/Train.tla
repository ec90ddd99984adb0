------------------------------- MODULE Train --------------------------------
(* The training loop: iterations of episodes, a checkpoint after each        *)
(* iteration, crashes anywhere, restarts from the newest checkpoint.         *)
(*                                                                           *)
(* cfg = [n |-> iterations, e |-> episodes per iteration, l |-> step limit]  *)
(* disk is the set of iterations whose checkpoint is complete.               *)
(* pc: what the loop does next:                                              *)
(*    down   not running           begin  start an episode                   *)
(*    step   send the action       act    hand the outcome to the agent      *)
(*    end    tell the agent the episode is over                              *)
(*    save   take the checkpoint   fin    all iterations done                *)
EXTENDS Integers, Sequences, FiniteSets

NewestOf(disk) == IF disk = {} THEN -1 ELSE CHOOSE i \in disk : \A j \in disk : j <= i
StartIteration(disk) == NewestOf(disk) + 1
FirstEpisode(cfg, disk) == StartIteration(disk) * cfg.e

\* Where the loop stands when iteration it, episode ep is about to start.
Enter(cfg, it, ep) ==
  IF it >= cfg.n THEN [pc |-> "fin", it |-> it, ep |-> 0]
  ELSE IF ep >= cfg.e THEN [pc |-> "save", it |-> it, ep |-> ep]
  ELSE [pc |-> "begin", it |-> it, ep |-> ep]

\* After the initial observation was handed over.
AfterBegin(cfg) == IF cfg.l > 0 THEN "step" ELSE "end"
\* After an environment step, and after the agent answered the k-th one.
AfterEnvStep(terminal) == IF terminal THEN "end" ELSE "act"
AfterAct(cfg, k) == IF k < cfg.l THEN "step" ELSE "end"
=============================================================================
