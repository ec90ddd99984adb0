----------------------------- MODULE MC_Render ------------------------------
(* Every short history of resets, steps and render calls.                     *)
EXTENDS Render, TLC, Json
CONSTANTS MaxEps, MaxSteps, MaxRenders
VARIABLES ep, n, seen, renders, act
vars == <<ep, n, seen, renders, act>>
Modes == {"human", "rgb_array", "tensorboard", "ansi"}
\* The constructor resets once.
Init == ep = 1 /\ n = 0 /\ seen = Shown(<<>>, Told("reset", At(1, 0))) /\ renders = 0 /\ act = [op |-> "init"]
Reset == /\ ep < MaxEps /\ ep' = ep + 1 /\ n' = 0 /\ seen' = Shown(seen, Told("reset", At(ep', 0)))
         /\ act' = [op |-> "reset"] /\ renders' = 0
Step == /\ n < MaxSteps /\ n' = n + 1 /\ ep' = ep /\ seen' = Shown(seen, Told("step", At(ep, n')))
        /\ act' = [op |-> "step"] /\ renders' = 0
Show(m) == /\ renders < MaxRenders /\ renders' = renders + 1 /\ seen' = Shown(seen, Told("render", At(ep, n)))
           /\ act' = [op |-> "render", mode |-> m] /\ UNCHANGED <<ep, n>>
Next == Reset \/ Step \/ \E m \in Modes : Show(m)
Spec == Init /\ [][Next]_vars
\* What the renderer can plot is the current flight, all of it and in order.
CurrentFlight == seen = [i \in 1..(n + 1) |-> At(ep, i - 1)]
RenderIsPure == [][act'.op = "render" => seen' = seen /\ ep' = ep /\ n' = n]_vars
Obs == [ep |-> ep, n |-> n, r |-> renders]
View == Obs
EmitInit == TLCGet("level") > 1 \/ PrintT("INIT " \o ToJson(Obs))
EmitEdge == PrintT("EDGE " \o ToJson([f |-> Obs, a |-> act', t |-> Obs']))
=============================================================================
