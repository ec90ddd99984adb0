-------------------------- MODULE T_EnvelopeSafety --------------------------
EXTENDS TraceKit, EnvelopeSafety

StartDef == [layer |-> "NOMINAL", max |-> "0"]
Nxt(s, e) == EnvNext(s.layer, EnvZoneOf(e.sp, s.max))
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> << Clause("new-layer-is-not-paused", ~e.paused) >>
    [] e.ev = "peek"  -> << Clause("reading-the-flag-does-not-change-it", e.paused = EnvPaused(s.layer)) >>
    [] e.ev = "get" ->
       << Clause("no-exception", e.exc = "ok"),
          Clause("effective-command", e.eff = EnvFilter(Nxt(s, e), e.cmd)),
          Clause("paused-iff-restricting", e.paused = EnvPaused(Nxt(s, e))) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) ==
  CASE e.ev = "begin" -> [layer |-> "NOMINAL", max |-> e.max]
    [] e.ev = "get" -> [s EXCEPT !.layer = Nxt(s, e)]
    [] OTHER -> s
=============================================================================
