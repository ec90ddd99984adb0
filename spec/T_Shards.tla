------------------------------ MODULE T_Shards ------------------------------
(* Judges sharded evaluations and the combination of their result files.     *)
EXTENDS TraceKit, Evaluation
StartDef == [suite |-> <<>>, files |-> {}, shards |-> <<>>]

\* shards: sequence of [model, ent] with ent a sequence of [s, d, p]
\* (seed, digest of the rest of the result, digest of the flight path).
EntriesOf(st, m) ==
  LET mine == SelectSeq(st.shards, LAMBDA x : x.model = m)
      RECURSIVE Cat(_)
      Cat(k) == IF k = 0 THEN <<>> ELSE Cat(k - 1) \o mine[k].ent IN
  Cat(Len(mine))
Sorted(q) == \A i \in 1..(Len(q) - 1) : q[i].s <= q[i + 1].s
Times(q, x) == Cardinality({i \in 1..Len(q) : q[i] = x})
SameBag(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(p) : Times(p, p[i]) = Times(q, p[i])
Bare(q) == [i \in 1..Len(q) |-> [s |-> q[i].s, d |-> q[i].d]]

JudgeDef(st, e) ==
  CASE e.op = "new" -> <<>>
    [] e.op = "suite" ->
         <<Clause("suite-is-found", e.how = "ok"),
           Clause("suite-is-the-documented-one", e.how = "ok" =>
             /\ e.l = 960
             /\ (e.doc >= 0 => e.seeds = [i \in 1..e.doc |-> i - 1])),
           Clause("suite-is-not-affected-by-earlier-use", e.seeds = e.again)>>
    [] e.op = "unknown" -> <<Clause("unknown-suite-is-refused", e.how = "ValueError")>>
    [] e.op = "shard" ->
         LET lo == ShardLo(Len(st.suite), e.i, e.k)  hi == ShardHi(Len(st.suite), e.i, e.k)
             mine == SubSeq(st.suite, lo + 1, hi) IN
         <<Clause("shard-evaluation-succeeds", e.how = "ok"),
           Clause("shard-plays-exactly-its-seeds", e.played = mine),
           Clause("shard-file-has-the-documented-name", e.wrote = <<e.name>>),
           Clause("shard-file-holds-its-seeds", [i \in 1..Len(e.ent) |-> e.ent[i].s] = mine),
           Clause("shard-file-holds-the-results", e.rewards = e.expected)>>
    [] e.op = "combine" ->
         LET all == EntriesOf(st, e.model) IN
         <<Clause("combining-succeeds", e.how = "ok"),
           Clause("combined-in-seed-order", Sorted(e.ent)),
           Clause("combined-holds-exactly-the-models-results", SameBag(Bare(all), Bare(e.ent))),
           Clause("combined-flight-paths-as-asked",
             IF e.paths THEN SameBag(all, e.ent) ELSE \A i \in 1..Len(e.ent) : e.ent[i].p = e.nopath)>>
    [] e.op = "intact" -> <<Clause("combining-keeps-the-shard-files", e.same)>>
    [] e.op = "json" ->
         <<Clause("json-encodes-the-result", e.how = "ok"),
           Clause("json-keeps-the-fields", e.how = "ok" => DOMAIN e.out = DOMAIN e.in),
           Clause("json-preserves-every-value", e.how = "ok" => \A f \in DOMAIN e.in : e.out[f] = e.in[f])>>
    [] e.op = "other" -> <<>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

AfterDef(st, e) ==
  CASE e.op = "new" -> StartDef
    [] e.op = "suite" -> [st EXCEPT !.suite = e.seeds]
    [] e.op \in {"shard", "other"} -> [st EXCEPT !.shards = Append(@, [model |-> e.model, ent |-> e.ent])]
    [] OTHER -> st
=============================================================================
