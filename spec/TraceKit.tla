------------------------------ MODULE TraceKit ------------------------------
(* Common part of every trace specification.                                *)
(*                                                                          *)
(* The recorded events are read from the ndjson file named by the           *)
(* environment variable TRACE.  A trace module defines                      *)
(*    Start          abstract state before the first event                  *)
(*    Judge(st, e)   sequence of <<clause name, BOOLEAN>>: what the         *)
(*                   specification requires of event e in state st          *)
(*    After(st, e)   abstract state after the event (the specification's    *)
(*                   action; resynchronised with the recorded state where   *)
(*                   the event carries it)                                  *)
(* The verdict is total: every event is consumed and judged, the failing    *)
(* clauses are collected in bad, and the last step prints the verdict.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, FloatOps
CONSTANTS Start, Judge(_, _), After(_, _)   \* bound in the configuration
VARIABLES tkLine, tkState, tkBad

Trace == ndJsonDeserialize(IOEnv.TRACE)

Failing(cs) == SelectSeq(cs, LAMBDA c : ~c[2])
Tag(k, cs) == [i \in 1..Len(cs) |-> <<k, cs[i][1]>>]
MaxBad == 25
Report(k, n, bads) ==
  IF k = n THEN PrintT("VERDICT " \o ToJson([n |-> n, bad |-> bads])) ELSE TRUE

TInit == tkLine = 1 /\ tkState = Start /\ tkBad = <<>>
TNext ==
  /\ tkLine <= Len(Trace)
  /\ tkLine' = tkLine + 1
  /\ tkBad' = IF Len(tkBad) >= MaxBad THEN tkBad
            ELSE tkBad \o Tag(tkLine, Failing(Judge(tkState, Trace[tkLine])))
  /\ tkState' = After(tkState, Trace[tkLine])
  /\ Report(tkLine, Len(Trace), tkBad')
TSpec == TInit /\ [][TNext]_<<tkLine, tkState, tkBad>>

\* --- small vocabulary shared by the trace modules ---
Has(e, f) == f \in DOMAIN e
Fld(e, f, default) == IF Has(e, f) THEN e[f] ELSE default
Close(a, b)  == FClose(a, b, "1e-9", "1e-12")
CloseA(a, b, abs) == FClose(a, b, "1e-9", abs)
IsStr(x) == x = ToString(x)
Clause(name, ok) == <<name, ok>>
Implies(a, b) == (~a) \/ b
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Between(x, lo, hi) == FLe(lo, x) /\ FLe(x, hi)
=============================================================================
