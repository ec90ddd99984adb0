-------------------------- MODULE T_AltitudeSafety --------------------------
(* Trace specification: calls of the real layer.                            *)
(*   begin: a new layer     get: altitude (feet), cmd, eff, paused, exc     *)
EXTENDS TraceKit, AltitudeSafety

StartDef == "NOMINAL"
Nxt(s, e) == AltNext(s, AltZoneOf(e.feet))
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> << Clause("new-layer-is-not-paused", ~e.paused) >>
    [] e.ev = "peek"  -> << Clause("reading-the-flag-does-not-change-it", e.paused = AltPaused(s)) >>
    [] e.ev = "get" ->
       << Clause("no-exception", e.exc = "ok"),
          Clause("effective-command", e.eff = AltFilter(Nxt(s, e), e.cmd)),
          Clause("paused-iff-restricting", e.paused = AltPaused(Nxt(s, e))) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) ==
  CASE e.ev = "begin" -> "NOMINAL"
    [] e.ev = "get" -> Nxt(s, e)
    [] OTHER -> s
=============================================================================
