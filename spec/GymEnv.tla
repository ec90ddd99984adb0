------------------------------- MODULE GymEnv -------------------------------
(* The environment as an agent meets it, and the parts it was given: an        *)
(* arena, a reward function, feature constructors made one per flight.         *)
(* A position stands for the whole state of the simulator.                     *)
EXTENDS Integers, Sequences
Actions == 0..2
Command(a) == CASE a = 0 -> "DOWN" [] a = 1 -> "STAY" [] a = 2 -> "UP"
\* What happens to a flight by one call.  fl: flight number, n: steps flown in it,
\* made: feature constructors made so far (the last one serves), told: what the
\* serving one was told, cmds: the commands the balloon got in this flight.
Begin(w) == [w EXCEPT !.fl = @ + 1, !.n = 0, !.made = @ + 1, !.told = << <<w.fl + 1, 0>> >>, !.cmds = <<>>]
Flown(w, a) == [w EXCEPT !.n = @ + 1, !.told = Append(@, <<w.fl, w.n + 1>>), !.cmds = Append(@, Command(a))]
\* The kinds of call.
After1(w, call) ==
  CASE call.op = "reset" -> Begin(w)
    [] call.op = "step" /\ call.a \in Actions -> Flown(w, call.a)
    [] OTHER -> w
Answer(call) ==
  CASE call.op = "step" -> IF call.a \in Actions THEN "transition" ELSE "refused"
    [] call.op = "reset" -> IF call.info THEN "obs+info" ELSE "obs"
    [] call.op = "with" -> IF call.fails THEN "reraised" ELSE "itself"
    [] OTHER -> "none"
Dead == {"OUT_OF_POWER", "BURST", "ZEROPRESSURE"}
Flags(status) == [out_of_power |-> status = "OUT_OF_POWER", envelope_burst |-> status = "BURST",
                  zeropressure |-> status = "ZEROPRESSURE"]
=============================================================================
