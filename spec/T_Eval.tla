------------------------------- MODULE T_Eval -------------------------------
(* Judges recorded evaluations (see Evaluation.tla).                         *)
EXTENDS TraceKit, Evaluation
StartDef == [cfg |-> [n |-> 0, l |-> 1, p |-> 1, path |-> TRUE, radius |-> "0.0"], seeds |-> <<>>, pc |-> "off", i |-> 0,
             k |-> 0, a |-> 0, r |-> "0.0", t |-> FALSE, obs |-> 0, steps |-> <<>>, due |-> FALSE, exp |-> <<>>, m |-> "?", got |-> 0]

SameResult(x, s) ==
  <<Clause("result-names-the-seed", x.seed = s.seed),
    Clause("result-cumulative-reward", FClose(x.reward, s.reward, "1e-9", "1e-9")),
    Clause("result-time-within-radius", FClose(x.twr, s.twr, "1e-12", "1e-12")),
    Clause("result-terminal-cause", x.oop = s.oop /\ x.burst = s.burst /\ x.zero = s.zero),
    Clause("result-final-timestep", x.final = s.final),
    Clause("result-flight-path-length", Len(x.path) = Len(s.path)),
    Clause("result-flight-path", \A j \in 1..Min2(Len(x.path), Len(s.path)) :
       LET p == x.path[j]  q == s.path[j] IN
       /\ Close(p.x, q.x) /\ Close(p.y, q.y) /\ FEq(p.p, q.p) /\ FEq(p.sp, q.sp)
       /\ FEq(p.el, q.el) /\ FEq(p.soc, q.soc))>>

JudgeDef(st, e) ==
  CASE e.op = "suite" -> <<>>
    [] e.op = "mode" -> <<Clause("evaluates-in-evaluation-mode", e.m = "EVAL")>>
    [] e.op = "seed" ->
         <<Clause("seeds-once-per-episode", st.pc = "seed"),
           Clause("seeds-in-suite-order", st.pc = "seed" => e.s = st.seeds[st.i + 1])>>
    [] e.op = "reset" -> <<Clause("resets-after-seeding", st.pc = "reset")>>
    [] e.op = "begin" ->
         <<Clause("agent-begins-once-per-episode", st.pc = "begin"),
           Clause("agent-is-in-evaluation-mode", st.m = "EVAL"),
           Clause("agent-gets-the-initial-observation", e.obs = st.obs)>>
    [] e.op = "step" ->
         <<Clause("environment-steps-only-when-due", st.pc = "step"),
           Clause("environment-gets-the-agents-last-action", e.a = st.a),
           Clause("step-is-rendered-at-the-period", ~st.due)>>
    [] e.op = "act" ->
         <<Clause("agent-steps-once-per-environment-step", st.pc = "act"),
           Clause("agent-gets-the-reward", e.r = st.r),
           Clause("agent-gets-the-observation", e.obs = st.obs)>>
    [] e.op = "end" ->
         <<Clause("episode-ends-when-terminal-or-at-the-limit", st.pc = "end"),
           Clause("episode-ends-with-the-last-reward", e.r = st.r),
           Clause("episode-end-says-whether-terminal", e.t = st.t),
           Clause("last-step-is-rendered-at-the-period", ~st.due)>>
    [] e.op = "render" -> <<Clause("renders-at-the-period-only", st.due)>>
    [] e.op = "return" ->
         <<Clause("evaluation-succeeds", e.how = "ok"),
           Clause("returns-when-all-seeds-are-done", st.pc = "done"),
           Clause("one-result-per-seed", e.n = Len(st.seeds)),
           Clause("the-seed-list-is-not-modified", e.seeds = st.seeds)>>
    [] e.op = "result" ->
         IF st.got < Len(st.exp) THEN SameResult(e, st.exp[st.got + 1])
         ELSE <<Clause("no-result-without-an-episode", FALSE)>>
    [] e.op = "json" ->   \* results encoded to JSON and read back
         <<Clause("json-encodes-every-result", e.how = "ok" /\ Len(e.res) = Len(st.exp))>>
         \o (IF e.how # "ok" \/ Len(e.res) # Len(st.exp) THEN <<>>
             ELSE LET bad == {j \in 1..Len(e.res) : \E c \in 1..7 : ~SameResult(e.res[j], st.exp[j])[c][2]} IN
                  <<Clause("json-preserves-every-value", bad = {})>>)
    [] e.op = "same" ->   \* the same seeds evaluated together, one by one, in another order
         <<Clause("result-depends-on-the-seed-alone", e.a = e.b)>>
    [] OTHER -> <<Clause("known-event", FALSE)>>

AfterDef(st, e) ==
  CASE e.op = "suite" -> [StartDef EXCEPT !.cfg = e.cfg, !.seeds = e.seeds, !.pc = AfterResult(Len(e.seeds), 0)]
    [] e.op = "mode" -> [st EXCEPT !.m = e.m]
    [] e.op = "seed" -> [st EXCEPT !.pc = "reset"]
    [] e.op = "reset" -> [st EXCEPT !.pc = "begin", !.obs = e.obs, !.steps = <<>>, !.k = 0, !.due = FALSE]
    [] e.op = "begin" -> [st EXCEPT !.pc = "step", !.a = e.a]
    [] e.op = "step" -> [st EXCEPT !.pc = "act", !.k = st.k + 1, !.r = e.r, !.t = e.t, !.obs = e.obs,
                         !.steps = Append(st.steps, e), !.due = (st.k % st.cfg.p) = 0]
    [] e.op = "act" -> [st EXCEPT !.pc = AfterAct(st.cfg.l, st.k, st.t), !.a = e.a]
    [] e.op = "end" -> IF st.pc # "end" THEN st ELSE
         [st EXCEPT !.i = st.i + 1, !.pc = AfterResult(Len(st.seeds), st.i + 1),
                    !.exp = Append(st.exp, Account(st.seeds[st.i + 1], st.steps, st.cfg.radius, st.cfg.path))]
    [] e.op = "render" -> [st EXCEPT !.due = FALSE]
    [] e.op = "result" -> [st EXCEPT !.got = st.got + 1]
    [] OTHER -> st
=============================================================================
