------------------------------ MODULE MC_Train ------------------------------
(* Every history of the training loop over a few small configurations:       *)
(* every pattern of terminal and non-terminal steps, crashes at every point  *)
(* (also in the middle of writing a checkpoint and just after it), restarts. *)
(* The step limit of crashes bounds the histories.                           *)
EXTENDS Train, TLC, Json
CONSTANTS Cfgs, MaxCrashes
VARIABLES cfg, disk,
          torn,      \* a partial checkpoint of the iteration after the newest one lies about
          pc, it, ep, k, crashes, act,
          done,      \* history: iterations completed, in order
          starts     \* history: iteration each run started at
vars == <<cfg, disk, torn, pc, it, ep, k, crashes, act, done, starts>>

Init ==
  /\ cfg \in Cfgs
  /\ disk = {} /\ torn = FALSE /\ pc = "down" /\ it = 0 /\ ep = 0 /\ k = 0 /\ crashes = 0
  /\ act = [op |-> "init"] /\ done = <<>> /\ starts = <<>>

Go(w) == pc' = w.pc /\ it' = w.it /\ ep' = w.ep

Start ==
  /\ pc = "down"
  /\ Go(Enter(cfg, StartIteration(disk), 0))
  /\ k' = 0 /\ act' = [op |-> "start"]
  /\ starts' = Append(starts, StartIteration(disk))
  /\ UNCHANGED <<cfg, disk, torn, crashes, done>>
Begin ==
  /\ pc = "begin"
  /\ pc' = AfterBegin(cfg) /\ k' = 0 /\ act' = [op |-> "begin"]
  /\ UNCHANGED <<cfg, disk, torn, it, ep, crashes, done, starts>>
EnvStep(t) ==
  /\ pc = "step"
  /\ pc' = AfterEnvStep(t) /\ k' = k + 1 /\ act' = [op |-> "step", t |-> t]
  /\ UNCHANGED <<cfg, disk, torn, it, ep, crashes, done, starts>>
Act ==
  /\ pc = "act"
  /\ pc' = AfterAct(cfg, k) /\ act' = [op |-> "act"]
  /\ UNCHANGED <<cfg, disk, torn, it, ep, k, crashes, done, starts>>
End ==
  /\ pc = "end"
  /\ Go(Enter(cfg, it, ep + 1)) /\ k' = 0 /\ act' = [op |-> "end"]
  /\ UNCHANGED <<cfg, disk, torn, crashes, done, starts>>
Save ==
  /\ pc = "save"
  /\ disk' = disk \cup {it}
  /\ Go(Enter(cfg, it + 1, 0)) /\ k' = 0 /\ act' = [op |-> "save"]
  /\ done' = Append(done, it) /\ torn' = FALSE
  /\ UNCHANGED <<cfg, crashes, starts>>
\* at: the activity during which the process dies.
Crash(at) ==
  /\ crashes < MaxCrashes
  /\ \/ pc \in {"begin", "step", "act", "end"} /\ at = pc /\ UNCHANGED <<disk, done>>
     \/ pc = "begin" /\ at \in {"reset", "collector_begin"} /\ UNCHANGED <<disk, done>>
     \/ pc = "act" /\ at = "collector_step" /\ UNCHANGED <<disk, done>>
     \/ pc = "save" /\ at \in {"save_before", "save_torn"} /\ UNCHANGED <<disk, done>>
     \/ pc = "save" /\ at = "save_after" /\ disk' = disk \cup {it} /\ done' = Append(done, it)
  /\ torn' = CASE at = "save_torn" -> TRUE [] at = "save_after" -> FALSE [] OTHER -> torn
  /\ pc' = "down" /\ it' = 0 /\ ep' = 0 /\ k' = 0
  /\ crashes' = crashes + 1 /\ act' = [op |-> "crash", at |-> at]
  /\ UNCHANGED <<cfg, starts>>
Again ==   \* a finished training run is started once more: nothing left to do
  /\ pc = "fin" /\ act.op # "start"
  /\ pc' = "down" /\ it' = 0 /\ ep' = 0 /\ k' = 0 /\ act' = [op |-> "return"]
  /\ UNCHANGED <<cfg, disk, torn, crashes, done, starts>>

Points == {"begin", "step", "act", "end", "reset", "collector_begin", "collector_step",
           "save_before", "save_torn", "save_after"}
Next == Start \/ Begin \/ Act \/ End \/ Save \/ Again
        \/ (\E t \in BOOLEAN : EnvStep(t)) \/ (\E at \in Points : Crash(at))
Spec == Init /\ [][Next]_vars

\* The property, over the history.
NoIterationRepeatedOrSkipped == \A i \in 1..Len(done) : done[i] = i - 1
DiskIsDone == disk = {done[i] : i \in 1..Len(done)}
ResumesAfterNewest ==
  \A i \in 1..Len(starts) : starts[i] <= Len(done) /\ (i > 1 => starts[i] >= starts[i - 1])
RunningIterationIsNotDone == pc \notin {"down", "fin"} => it = Len(done)
WithinLimits == k <= cfg.l /\ it <= cfg.n /\ ep <= cfg.e
FinishedMeansAllDone == pc = "fin" => Len(done) = cfg.n
NoActionAfterTerminal == (act.op = "step" /\ act.t) => pc = "end"

Obs == [cfg |-> cfg, disk |-> disk, torn |-> torn, pc |-> pc, it |-> it, ep |-> ep, k |-> k, crashes |-> crashes,
        a |-> act.op = "start"]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
View == <<cfg, disk, torn, pc, it, ep, k, crashes, act, done, starts>>
CfgsQuick == {[n |-> 2, e |-> 2, l |-> 2], [n |-> 3, e |-> 1, l |-> 1],
              [n |-> 1, e |-> 2, l |-> 3], [n |-> 2, e |-> 1, l |-> 0]}
CfgsThorough == [n : 1..3, e : 1..2, l : 0..3]
=============================================================================
