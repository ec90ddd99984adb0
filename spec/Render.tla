------------------------------- MODULE Render -------------------------------
(* An environment with a renderer: what the renderer is told, and what it     *)
(* may show.  A position stands for a whole visited state.                    *)
EXTENDS Integers, Sequences
\* The simulator: the position visited n-th in episode ep.
At(ep, n) == <<ep, n>>
\* What the renderer is told by one call of the environment.
Told(op, now) == CASE op = "reset" -> <<[c |-> "reset"], [c |-> "step", s |-> now]>>
                   [] op = "step" -> <<[c |-> "step", s |-> now]>>
                   [] OTHER -> <<>>
\* What the renderer has been shown since it was last reset.
RECURSIVE Shown(_, _)
Shown(seen, told) ==
  IF told = <<>> THEN seen
  ELSE Shown(IF Head(told).c = "reset" THEN <<>> ELSE Append(seen, Head(told).s), Tail(told))
\* The result of asking for a frame.
Frame(mode, modes, renderer) ==
  IF ~renderer THEN "none" ELSE IF mode \in modes THEN "renderer" ELSE "ValueError"
=============================================================================
