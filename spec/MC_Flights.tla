----------------------------- MODULE MC_Flights -----------------------------
(* Interleaved histories of several environments: seeding, resets, steps,     *)
(* saving and restoring.                                                      *)
EXTENDS Flights, TLC, Json
CONSTANTS Envs, Seeds, MaxSplit, MaxSteps, Slots
VARIABLES env, slot, act
vars == <<env, slot, act>>
None == [ep |-> <<0, 0>>, acts |-> <<>>]
Init == /\ env = [e \in Envs |-> New(CHOOSE s \in Seeds : \A r \in Seeds : s <= r)]
        /\ slot = [i \in Slots |-> None] /\ act = [op |-> "init", e |-> 0]
Do(e, x, name) == env' = [env EXCEPT ![e] = x] /\ act' = name /\ UNCHANGED slot
Next == \E e \in Envs :
  \/ \E s \in Seeds : Do(e, Seeded(env[e], s), [op |-> "seed", e |-> e, s |-> s])
  \/ \E s \in Seeds : Do(e, New(s), [op |-> "reseed", e |-> e, s |-> s])
  \/ env[e].key[2] < MaxSplit /\ Do(e, Reset(env[e]), [op |-> "reset", e |-> e])
  \/ Len(env[e].acts) < MaxSteps /\ Do(e, Stepped(env[e], 0), [op |-> "step", e |-> e])
  \/ \E i \in Slots : slot' = [slot EXCEPT ![i] = Saved(env[e])] /\ UNCHANGED env
                      /\ act' = [op |-> "save", e |-> e, i |-> i]
  \/ \E i \in Slots : slot[i] # None /\ Do(e, Restored(env[e], slot[i]), [op |-> "restore", e |-> e, i |-> i])
Spec == Init /\ [][Next]_vars
\* Nothing but its own actions changes an environment.
Isolation == [][\A e \in Envs : e # act'.e => env'[e] = env[e]]_vars
\* The seed decides, whatever came before.
SeedDecides == [][act'.op = "reseed" => env'[act'.e] = New(act'.s)]_vars
SeedsThenReset == [][(act.op = "seed" /\ act'.op = "reset" /\ act.e = act'.e) => env'[act'.e] = New(act.s)]_vars
\* Unseeded resets never repeat an episode.
Progress == [][(act'.op = "reset" /\ env[act'.e].key[2] > 0) => env'[act'.e].ep[2] > env[act'.e].key[2]]_vars
\* A saved state is a value.
SlotsKeep == [][\A i \in Slots : (act'.op # "save" \/ act'.i # i) => slot'[i] = slot[i]]_vars
SavingIsPure == [][act'.op = "save" => env' = env]_vars
Obs == [env |-> env, slot |-> slot]
View == Obs
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
