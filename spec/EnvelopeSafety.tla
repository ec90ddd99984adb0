--------------------------- MODULE EnvelopeSafety ---------------------------
(* The envelope safety layer: five states, hysteresis on both sides.        *)
EXTENDS FloatOps

EnvZones == {"low_critical", "low", "low_hyst", "nominal", "high_hyst", "high", "high_critical"}
EnvStates == {"NOMINAL", "LOW_CRITICAL", "LOW", "HIGH", "HIGH_CRITICAL"}

EnvZoneOf(sp, max) ==
  IF FLt(sp, 150) THEN "low_critical"
  ELSE IF FLt(sp, 250) THEN "low"
  ELSE IF FLt(sp, 300) THEN "low_hyst"
  ELSE IF FLt(sp, FSub(max, 300)) THEN "nominal"
  ELSE IF FLt(sp, FSub(max, 250)) THEN "high_hyst"
  ELSE IF FLt(sp, FSub(max, 150)) THEN "high"
  ELSE "high_critical"

EnvNext(s, zone) ==
  CASE zone = "low_critical"  -> "LOW_CRITICAL"
    [] zone = "low"           -> "LOW"
    [] zone = "low_hyst"      -> IF s \in {"LOW", "LOW_CRITICAL"} THEN "LOW" ELSE "NOMINAL"
    [] zone = "nominal"       -> "NOMINAL"
    [] zone = "high_hyst"     -> IF s \in {"HIGH", "HIGH_CRITICAL"} THEN "HIGH" ELSE "NOMINAL"
    [] zone = "high"          -> "HIGH"
    [] OTHER                  -> "HIGH_CRITICAL"

EnvFilter(s, cmd) ==
  CASE s \in {"LOW_CRITICAL", "HIGH_CRITICAL"} -> "UP"
    [] s \in {"LOW", "HIGH"} /\ cmd = "DOWN" -> "STAY"
    [] OTHER -> cmd

EnvPaused(s) == s # "NOMINAL"
=============================================================================
