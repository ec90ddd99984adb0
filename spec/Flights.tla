------------------------------- MODULE Flights -------------------------------
(* Which flight an environment is on.                                         *)
(*                                                                            *)
(* A seed is split once per reset: <<s, k>> is the k-th episode after seeding *)
(* with s, and everything that happens in an episode is a function of its     *)
(* identity and of the actions taken in it.  An environment is                *)
(*    [key |-> <<s, k>>, ep |-> identity, acts |-> actions so far,            *)
(*     own |-> whether it has flown all of it itself]                         *)
(* A saved state is the same pair of identity and actions.  A state may also  *)
(* be put together from a saved balloon and the air or the wind of the flight *)
(* it is restored into: such a flight is identified by its three parts.       *)
EXTENDS Integers, Sequences
Seeded(env, s) == [env EXCEPT !.key = <<s, 0>>]
Reset(env) == LET k == <<env.key[1], env.key[2] + 1>> IN [key |-> k, ep |-> k, acts |-> <<>>, own |-> TRUE]
Stepped(env, a) == [env EXCEPT !.acts = Append(@, a)]
New(s) == Reset([key |-> <<s, 0>>])
Saved(env) == [ep |-> env.ep, acts |-> env.acts]
Restored(env, slot) == [env EXCEPT !.ep = slot.ep, !.acts = slot.acts, !.own = FALSE]
Mixture(ep) == ep[1] = "mix"
AirOf(ep) == IF Mixture(ep) THEN ep[3] ELSE ep
WindOf(ep) == IF Mixture(ep) THEN ep[4] ELSE ep
\* From a slot's balloon, with the environment's own air (la) and wind (lw).
Mixed(env, slot, la, lw) ==
  LET a == IF la THEN AirOf(env.ep) ELSE AirOf(slot.ep)
      w == IF lw THEN WindOf(env.ep) ELSE WindOf(slot.ep) IN
  IF a = AirOf(slot.ep) /\ w = WindOf(slot.ep) THEN Restored(env, slot)
  ELSE [env EXCEPT !.ep = <<"mix", <<slot.ep, slot.acts>>, a, w>>, !.acts = <<>>, !.own = FALSE]
=============================================================================
