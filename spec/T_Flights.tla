------------------------------ MODULE T_Flights ------------------------------
(* Judges recorded flights of several environments: the same identity and     *)
(* actions always look the same, different identities differ.                 *)
(*   e.v  balloon, winds, atmosphere, reward and flags; e.o  the observation; *)
(*   e.parts  the sampled quantities, named                                   *)
EXTENDS TraceKit, Flights
StartDef == [env |-> <<>>, slot |-> <<>>, known |-> <<>>, seen |-> <<>>, parts |-> <<>>]
Env(st, e) == st.env[e.e]
Id(x, cfg) == cfg \o ToString(x.ep) \o ToString(x.acts)
EpId(x, cfg) == cfg \o ToString(x.ep)
\* The environment's abstract state after the event.
Then(st, e) ==
  CASE e.op = "new" -> New(e.s)
    [] e.op = "seed" -> Seeded(Env(st, e), e.s)
    [] e.op = "reseed" -> New(e.s)
    [] e.op = "reset" -> Reset(Env(st, e))
    [] e.op = "step" -> Stepped(Env(st, e), e.a)
    [] e.op = "restore" -> Restored(Env(st, e), st.slot[e.i])
    [] e.op = "mix" -> Mixed(Env(st, e), st.slot[e.i], e.la, e.lw)
    [] OTHER -> Env(st, e)
Eq(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(q) : FClose(p[i], q[i], "1e-9", "1e-12")
JudgeDef(st, e) ==
  IF e.op \in {"perturb", "begin"} THEN <<>> ELSE
  IF e.how # "ok" THEN <<Clause("environment-never-fails", FALSE)>> ELSE
  LET x == Then(st, e)  id == Id(x, e.cfg)  name == IF Has(e, "clause") THEN e.clause ELSE "same-seed-same-flight" IN
  <<Clause(name, id \in DOMAIN st.known => Eq(e.v, st.known[id]) ),
    Clause("same-seed-same-observations", (x.own /\ e.o # <<>> /\ id \in DOMAIN st.seen) => Eq(e.o, st.seen[id]))>>
  \o (IF e.op \in {"new", "reseed", "reset"}
      THEN [i \in 1..Len(e.parts) |->
              Clause("different-episodes-differ-in-" \o e.parts[i][1],
                     LET p == e.cfg \o e.parts[i][1] \o e.parts[i][2] IN
                     p \in DOMAIN st.parts => st.parts[p] = EpId(x, e.cfg))]
      ELSE <<>>)
AfterDef(st, e) ==
  IF e.op = "begin" THEN StartDef ELSE
  IF e.op = "perturb" \/ e.how # "ok" THEN st ELSE
  LET x == Then(st, e)  id == Id(x, e.cfg)
      ps == IF e.op \in {"new", "reseed", "reset"} THEN {e.cfg \o e.parts[i][1] \o e.parts[i][2] : i \in 1..Len(e.parts)} ELSE {} IN
  [env |-> (e.e :> x) @@ st.env,
   slot |-> IF e.op = "save" THEN (e.i :> Saved(x)) @@ st.slot ELSE st.slot,
   known |-> IF id \in DOMAIN st.known THEN st.known ELSE (id :> e.v) @@ st.known,
   seen |-> IF (~x.own) \/ e.o = <<>> \/ id \in DOMAIN st.seen THEN st.seen ELSE (id :> e.o) @@ st.seen,
   parts |-> st.parts @@ [p \in ps |-> EpId(x, e.cfg)]]
=============================================================================
