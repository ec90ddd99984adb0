------------------------------ MODULE T_Render ------------------------------
(* Judges what a renderer was told, what a frame shows, and that an           *)
(* environment with a renderer behaves as one without.                        *)
EXTENDS TraceKit, Render
StartDef == [seen |-> <<>>, modes |-> {}, renderer |-> FALSE]
Twin(e) == <<Clause("rendering-does-not-affect-the-simulation", e.now = e.twin),
             Clause("rendering-does-not-affect-what-is-returned", e.ret = e.tret)>>
Near(p, q) == \A i \in 1..Len(q) : FClose(p[i], q[i], "1e-9", "1e-6")
Same(p, q) == Len(p) = Len(q) /\ \A i \in 1..Len(q) : Near(p[i], q[i])
Cols(q, cs) == [i \in 1..Len(q) |-> [j \in 1..Len(cs) |-> q[i][cs[j]]]]
JudgeDef(st, e) ==
  CASE e.op = "new" -> <<Clause("declares-the-renderers-modes", e.declared = e.modes)>> \o Twin(e)
         \o (IF e.rec THEN <<Clause("renderer-starts-with-the-first-state", e.calls = Told("reset", e.now))>> ELSE <<>>)
    [] e.op \in {"reset", "step"} ->
         Twin(e) \o (IF e.rec THEN <<Clause("renderer-is-told-every-state-once", e.calls = Told(e.op, e.now))>> ELSE <<>>)
    [] e.op = "render" ->
         Twin(e) \o <<Clause("render-result", e.out = Frame(e.mode, st.modes, st.renderer)),
                      Clause("render-is-forwarded-with-its-mode",
                             e.rec => IF e.mode \in st.modes THEN e.calls = <<[c |-> "render", mode |-> e.mode]>>
                                      ELSE \A i \in 1..Len(e.calls) : e.calls[i].c = "render")>>
    [] e.op = "frame" ->
         <<Clause("frame-is-produced", e.how = "ok"),
           Clause("frames-given-out-never-change", e.kept),
           Clause("frame-is-an-rgb-image", (e.how = "ok" /\ e.mode = "rgb_array") =>
                    e.shape = e.canvas \o <<3>> /\ e.dtype = "uint8" /\ e.ink),
           Clause("other-modes-return-nothing", (e.how = "ok" /\ e.mode # "rgb_array") => e.shape = <<>>)>>
         \o (IF e.how = "ok" /\ e.path
             THEN <<Clause("plots-the-flight-path", \E i \in 1..Len(e.lines3) : Same(e.lines3[i], Cols(st.seen, <<1, 2, 3>>))),
                    Clause("plots-nothing-else-in-the-air",
                           \A i \in 1..Len(e.lines3) : Len(e.lines3[i]) > 2 => Same(e.lines3[i], Cols(st.seen, <<1, 2, 3>>))),
                    Clause("plots-the-ground-track", \E i \in 1..Len(e.lines2) : Same(e.lines2[i], Cols(st.seen, <<1, 2>>))),
                    Clause("marks-the-balloon", \E i \in 1..Len(e.marks) : Near(e.marks[i], Cols(st.seen, <<1, 2>>)[Len(st.seen)])),
                    Clause("plots-the-charge", \E i \in 1..Len(e.power) : Same(e.power[i], Cols(st.seen, <<4, 5>>)))>>
             ELSE <<>>)
    [] e.op = "summary" ->
         <<Clause("tensorboard-frame-is-written", e.how = "ok" /\ e.out = "none"
                    /\ e.wrote = (IF e.writer /\ e.it >= 0 THEN <<e.it>> ELSE <<>>)
                    /\ (e.wrote # <<>> => e.same))>>
    [] e.op = "train" ->
         <<Clause("training-saves-the-last-path", e.how = "ok" /\ e.saved)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>
AfterDef(st, e) ==
  CASE e.op = "new" -> [seen |-> <<e.at>>, modes |-> {e.modes[i] : i \in 1..Len(e.modes)}, renderer |-> e.renderer]
    [] e.op = "reset" -> [st EXCEPT !.seen = <<e.at>>]
    [] e.op = "step" -> [st EXCEPT !.seen = Append(@, e.at)]
    [] OTHER -> st
=============================================================================
