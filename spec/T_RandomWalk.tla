---------------------------- MODULE T_RandomWalk ----------------------------
(* Judges the answers of the random-walk agent.  Each event carries the      *)
(* answers of copies of the agent to different pressures at the same moment; *)
(* together they pin down the hidden target.                                 *)
EXTENDS TraceKit, RandomWalk
StartDef == [t |-> "NaN", ds |-> <<>>, ts |-> <<>>]

Est(e) == FDiv(FAdd(Lo(e.probes), Hi(e.probes)), 2)
Mean(q) == FDiv(FSum(q), Len(q))
Sq(q) == [i \in 1..Len(q) |-> FMul(q[i], q[i])]
Lag(q) == [i \in 1..(Len(q) - 1) |-> FMul(q[i], q[i + 1])]
Small(q, x) == Len(SelectSeq(q, LAMBDA d : FLt(FAbs(d), x)))
Six(n) == FDiv(6, FSqrt(n))
NearFraction(k, n, f) == FLe(FAbs(FSub(FDiv(k, n), f)), FMul(Six(n), FSqrt(FMul(f, FSub(1, f)))))

Probed(e) ==
  <<Clause("agent-never-fails", e.how = "ok"),
    Clause("actions-are-valid", \A i \in 1..Len(e.probes) : e.probes[i].a \in {"UP", "DOWN", "STAY"}),
    \* one target explains all the answers, whatever was observed before
    Clause("moves-towards-the-target-with-hysteresis", e.how = "ok" => FLe(Lo(e.probes), FAdd(Hi(e.probes), "0.05"))),
    Clause("target-is-pinned-down", e.how = "ok" => FLe(FSub(Hi(e.probes), Lo(e.probes)), "0.5"))>>

JudgeDef(st, e) ==
  CASE e.op = "begin" ->
         Probed(e) \o <<Clause("target-is-drawn-from-the-documented-range",
                          e.how = "ok" => Between(Est(e), FSub(TargetLo, 1), FAdd(TargetHi, 1)))>>
    [] e.op = "step" -> Probed(e)
    [] e.op = "moves" ->   \* the steps of the target over all episodes
         LET q == e.ds  n == Len(q)  v == FDiv(FSum(Sq(q)), n)  sd2 == FMul(StepSd, StepSd) IN
         <<Clause("target-steps-are-centred", FLe(FAbs(Mean(q)), FMul(Six(n), StepSd))),
           Clause("target-steps-have-the-documented-size",
             FLe(FAbs(FSub(FDiv(v, sd2), 1)), FMul(Six(n), FSqrt(2)))),
           Clause("target-steps-are-independent", FLe(FAbs(FDiv(FSum(Lag(q)), n)), FMul(Six(n), sd2))),
           Clause("target-steps-are-gaussian",
             NearFraction(Small(q, StepSd), n, "0.6827") /\ NearFraction(Small(q, FDiv(StepSd, 4)), n, "0.1974"))>>
    [] e.op = "draws" ->   \* targets at the beginning of episodes
         LET q == e.ts  n == Len(q)  w == TargetHi - TargetLo IN
         <<Clause("target-is-uniform",
             \A f \in {1, 2, 3} :
               NearFraction(Len(SelectSeq(q, LAMBDA t : FLt(t, FAdd(TargetLo, FDiv(w * f, 4))))), n, FDiv(f, 4)))>>
    [] e.op = "jumps" ->   \* from the last target of an episode to the first of the next
         LET near == Small(e.ds, 2)  n == Len(e.ds)  w == TargetHi - TargetLo IN
         <<Clause("target-is-redrawn-when-an-episode-begins", near <= 4 + n \div 100),
           \* |difference of two uniform draws| is below a quarter of the range with probability 7/16
           Clause("new-target-does-not-depend-on-the-old", NearFraction(Small(e.ds, w \div 4), n, FDiv(7, 16)))>>
    [] e.op = "again" -> <<Clause("reproducible-from-the-seed", e.a = e.b),
                           Clause("seeds-differ", e.a # e.c)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

AfterDef(st, e) == st
=============================================================================
