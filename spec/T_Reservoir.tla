---------------------------- MODULE T_Reservoir ------------------------------
(* Judges recorded uses of a reservoir.  Every field carries its position;    *)
(* rows are the positions found in the fields returned, bad if a field is not *)
(* one of the data set.                                                       *)
EXTENDS TraceKit, Reservoir
StartDef == [n |-> 0, held |-> 0, seed |-> "", hist |-> "", memory |-> <<>>, evals |-> 0, counts |-> <<>>, drawn |-> 0]
Remembered(st, h) == SelectSeq(st.memory, LAMBDA m : m[1] = h)
HistOf(st, e) == st.hist \o "/" \o ToString(e.size)

BatchClauses(st, e) ==
  IF e.size > st.n - st.held THEN << Clause("too-large-a-batch-is-refused", e.exc # "ok") >>
  ELSE IF e.exc # "ok" THEN << Clause("batch-is-drawn", FALSE) >>
  ELSE LET same == Remembered(st, HistOf(st, e)) IN
  << Clause("fields-are-those-of-the-data-set", e.intact),
     Clause("batch-has-the-requested-size", Len(e.rows) = e.size),
     Clause("batch-has-no-field-twice", Cardinality(Rows(e.rows)) = Len(e.rows)),
     Clause("training-never-sees-evaluation-fields", Rows(e.rows) \subseteq TrainPart(st.n, st.held)),
     Clause("same-seed-same-batches", \A i \in 1..Len(same) : same[i][2] = e.rows) >>

\* counts[i]: how often training field i was drawn, first[i] how often as the first.
LawClauses(e) ==
  LET m == Len(e.counts)  want == FDiv(e.draws, m)
      dev == FSqrt(FMul(want, FSub(1, FDiv(e.size, m))))
      wantf == FDiv(e.batches, m) IN
  << Clause("every-training-field-is-drawn-alike",
        FLt(want, 5) \/ \A i \in 1..m : FLe(FAbs(FSub(e.counts[i], want)), FAdd(FMul("6.5", dev), 1))),
     Clause("order-is-random-too", FLt(wantf, 5) \/ \A i \in 1..m : FLe(FAbs(FSub(e.first[i], wantf)), FAdd(FMul("6.5", FSqrt(wantf)), 3))),
     Clause("batches-differ", (e.size > 1 => e.distinct >= 150) /\ (m >= 500 => e.distinct >= 200))	>>

JudgeDef(st, e) ==
  CASE e.op = "begin" -> <<>>
    [] e.op = "new" -> << Clause("reservoir-is-built", e.exc = "ok") >>
    [] e.op = "batch" -> BatchClauses(st, e)
    [] e.op = "eval" ->
         IF e.exc # "ok" THEN << Clause("evaluation-fields-are-returned", FALSE) >>
         ELSE << Clause("fields-are-those-of-the-data-set", e.intact),
                 Clause("evaluation-fields-are-the-last", e.rows = EvalBatch(st.n, st.held)) >>
    [] e.op = "law" -> LawClauses(e)
    [] OTHER -> << Clause("known-event", FALSE) >>

AfterDef(st, e) ==
  CASE e.op = "begin" -> StartDef
    [] e.op = "new" -> [st EXCEPT !.n = e.n, !.held = e.held, !.hist = e.seed \o ":" \o ToString(e.n) \o ":" \o ToString(e.held)]
    [] e.op = "batch" /\ e.exc = "ok" ->
         [st EXCEPT !.hist = HistOf(st, e), !.memory = Append(@, << HistOf(st, e), e.rows >>)]
    [] OTHER -> st
=============================================================================
