------------------------------ MODULE T_Store -------------------------------
(* Judges recorded use of the checkpoint store (see Store.tla).              *)
EXTENDS TraceKit, Store
StartDef == [store |-> {}, torn |-> {}, strays |-> {}]
SetOf(s) == {s[i] : i \in 1..Len(s)}

AfterDef(st, e) ==
  CASE e.op = "new" -> StartDef
    [] e.op = "save" -> [st EXCEPT !.store = SaveTo(@, e.i, e.v), !.torn = @ \ {e.i}]
    [] e.op = "tear" -> [st EXCEPT !.store = Drop(@, e.i), !.torn = @ \cup {e.i}]
    [] e.op = "clean" -> [st EXCEPT !.store = Collect(@, e.at, e.d), !.torn = CollectTorn(@, e.at, e.d)]
    [] e.op = "agentsave" -> [st EXCEPT !.store =
          IF e.d = -1 THEN SaveTo(@, e.i, e.v) ELSE Collect(SaveTo(@, e.i, e.v), e.i, e.d)]
    [] e.op = "stray" -> [st EXCEPT !.strays = @ \cup {e.name}]
    [] OTHER -> st

JudgeDef(st, e) ==
  LET n == AfterDef(st, e) IN
  (IF Has(e, "how") THEN <<Clause("store-operation-succeeds", e.how = "ok")>> ELSE <<>>) \o
  (IF Has(e, "files") THEN
     <<Clause("exactly-the-expected-checkpoints-exist", SetOf(e.files) = Iterations(n.store) \cup n.torn),
       Clause("files-that-are-not-checkpoints-stay", n.strays \subseteq SetOf(e.strays))>> ELSE <<>>) \o
  CASE e.op \in {"latest", "reload"} ->
         <<Clause("latest-is-the-highest-saved", e.how = "ok" => e.got = (IF e.op = "reload" THEN Latest(st.store) ELSE LatestName(st.store, st.torn)))>>
         \o (IF e.op = "reload" THEN
               <<Clause("reload-restores-what-was-saved",
                   e.how = "ok" => e.v = (IF st.store = {} THEN e.blank ELSE ContentOf(st.store, Latest(st.store))))>>
             ELSE <<>>)
    [] e.op = "load" ->
         IF e.i \in Iterations(st.store)
         THEN <<Clause("load-returns-what-was-saved", e.how = "ok" => (e.called = 1 /\ e.v = ContentOf(st.store, e.i)))>>
         ELSE <<Clause("nothing-is-loaded-when-nothing-was-saved", e.how = "ok" => e.called = 0)>>
    [] OTHER -> <<>>
=============================================================================
