----------------------------- MODULE MC_Command ------------------------------
(* Sequences of train and eval commands below one base directory.            *)
EXTENDS Command, Json
CONSTANTS Agents, Runs, MaxN, MaxCommands, MaxIdx
VARIABLES disk, files, act, count
vars == <<disk, files, act, count>>

Homes == {a \o "/" \o ToString(r) : a \in Agents, r \in Runs}
Init == disk = [h \in Homes |-> -1] /\ files = {} /\ act = [op |-> "none"] /\ count = 0

Train(a, r, n) ==
  LET f == [agent |-> a, run_number |-> r, num_iterations |-> n] IN
  /\ disk' = [disk EXCEPT ![Home(f)] = NewestAfter(f, disk[Home(f)])]
  /\ act' = [op |-> "train", f |-> f]
  /\ UNCHANGED files
\* Evaluates agent a, from the checkpoints of run r, or without any.
Eval(a, f) ==
  /\ files' = files \union {FileName(f)}
  /\ act' = [op |-> "eval", f |-> f, from |-> IF Given(f, "checkpoint_idx") THEN disk[Home([agent |-> a, run_number |-> 1])] ELSE -1]
  /\ UNCHANGED disk

Next ==
  /\ count < MaxCommands
  /\ count' = count + 1
  /\ \/ \E a \in Agents, r \in Runs, n \in 0..MaxN : Train(a, r, n)
     \/ \E a \in Agents : Eval(a, [agent |-> a, suite |-> "micro_eval"])
     \/ \E a \in Agents, i \in 0..MaxIdx :
          LET h == Home([agent |-> a, run_number |-> 1]) IN
          /\ i <= disk[h]
          /\ Eval(a, [agent |-> a, suite |-> "micro_eval", checkpoint_dir |-> h, checkpoint_idx |-> i])
Spec == Init /\ [][Next]_vars

\* Training one run leaves every other run alone, and never goes back.
OthersAlone == [][Cardinality({h \in Homes : disk'[h] # disk[h]}) <= 1]_vars
NeverBack == [][\A h \in Homes : disk'[h] >= disk[h]]_vars
EvalReadsOnly == [][act'.op = "eval" => disk' = disk]_vars
\* Every iteration up to the newest has been saved once: none is planned twice.
PlannedOnce ==
  [][act'.op = "train" =>
      LET old == disk[Home(act'.f)]  s == Saves(act'.f, old) IN
      /\ \A i \in 1..Len(s) : s[i] = old + i
      /\ disk'[Home(act'.f)] = old + Len(s)]_vars
\* Files of different agents or checkpoints have different names.
NamesDiffer == Cardinality(files) <= Cardinality(Agents) * (MaxIdx + 2)
Obs == [disk |-> disk, count |-> count]
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
View == <<disk, count>>
=============================================================================
