------------------------------ MODULE T_Physics -----------------------------
(* Single evaluations of the physical laws.                                 *)
EXTENDS TraceKit, Thermal, Acs, Envelope
StartDef == 0
JudgeDef(s, e) ==
  CASE e.ev = "begin" -> <<>>
    [] e.exc # "ok" -> << Clause("must-not-raise", FALSE) >>
    [] e.ev = "power" -> << Clause("most-efficient-power", Close(e.w, BestPower(e.ratio))),
                            Clause("power-within-100-and-400-watts", Between(e.w, 100, 400)) >>
    [] e.ev = "eff" -> << Clause("fan-efficiency", CloseA(e.eff, FanEfficiency(e.ratio, e.w), "1e-9")) >>
    [] e.ev = "flow" -> << Clause("mass-flow", Close(e.flow, PumpFlow(e.w, e.eff))) >>
    [] e.ev = "envelope" ->
         LET x == EnvelopeAt(FAdd(e.mhe, e.mair), e.ti, e.p, e.v0, e.dv) IN
         << Clause("volume", FClose(e.vol, x.vol, "1e-9", "1e-9")),
            Clause("superpressure", FClose(e.sp, x.sp, "1e-9", "1e-7")),
            Clause("gas-law-and-linear-envelope",
                   EnvelopeLaw(FAdd(e.mhe, e.mair), e.ti, e.p, e.v0, e.dv, e.vol, e.sp)),
            Clause("superpressure-not-negative", FGe(e.sp, "-1e-7")),
            Clause("slack-envelope-has-no-superpressure",
               FGt(FreeVolume(FAdd(e.mhe, e.mair), e.ti, e.p), e.v0) \/ FEq(e.sp, 0)) >>
    [] e.ev = "thermal" ->
         << Clause("gas-temperature-rate",
              FClose(e.rate, TemperatureRate(e.vol, e.mass, e.tb, e.ta, e.p, e.el, e.flux, e.ir), "1e-9", "1e-11")) >>
    [] OTHER -> << Clause("known-event", FALSE) >>
AfterDef(s, e) == s
=============================================================================
