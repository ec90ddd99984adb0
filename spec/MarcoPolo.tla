------------------------------ MODULE MarcoPolo -----------------------------
(* The interleaving of a learner with an exploratory agent: an episode       *)
(* either explores or not; one that does alternates Rl steps of the learner  *)
(* with Ex steps of the exploratory agent, the learner first (the action at  *)
(* the beginning of the episode is the first of the learner's).              *)
EXTENDS Integers
Rl == 80   \* four hours of three minutes
Ex == 40   \* two hours
\* Who acts at the k-th action of an exploring episode, k = 0 at its begin.
InExploration(k) == (k % (Rl + Ex)) >= Rl
Actor(explores, k) == IF explores /\ InExploration(k) THEN "explorer" ELSE "learner"

\* The same as a machine: the phase and the actions taken in it.
Fresh == [ph |-> "learner", n |-> 1]
Limit(ph) == IF ph = "learner" THEN Rl ELSE Ex
Other(ph) == IF ph = "learner" THEN "explorer" ELSE "learner"
Step(s, explores) ==
  IF ~explores THEN [ph |-> "learner", n |-> s.n + 1]
  ELSE IF s.n >= Limit(s.ph) THEN [ph |-> Other(s.ph), n |-> 1]
  ELSE [ph |-> s.ph, n |-> s.n + 1]
=============================================================================
