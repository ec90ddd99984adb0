--------------------------- MODULE AltitudeSafety ---------------------------
(* The altitude safety layer: a three-state machine with hysteresis.        *)
(* The abstract input is the zone the altitude lies in; ZoneOf gives the    *)
(* zone of a concrete altitude in feet.                                     *)
EXTENDS FloatOps

AltZones == {"very_low", "low", "hysteresis", "nominal"}
AltStates == {"NOMINAL", "LOW", "VERY_LOW"}
Commands == {"DOWN", "STAY", "UP"}

FloorFeet == 50000
AltZoneOf(feet) ==
  IF FLt(feet, FloorFeet) THEN "very_low"
  ELSE IF FLt(feet, FloorFeet + 500) THEN "low"
  ELSE IF FLt(feet, FloorFeet + 1000) THEN "hysteresis"
  ELSE "nominal"

AltNext(s, zone) ==
  CASE zone = "very_low"   -> "VERY_LOW"
    [] zone = "low"        -> "LOW"
    [] zone = "hysteresis" -> IF s = "NOMINAL" THEN "NOMINAL" ELSE "LOW"
    [] OTHER               -> "NOMINAL"

\* The command that takes effect in layer state s.
AltFilter(s, cmd) ==
  CASE s = "VERY_LOW" -> "UP"
    [] s = "LOW" /\ cmd = "DOWN" -> "STAY"
    [] OTHER -> cmd

AltPaused(s) == s # "NOMINAL"
=============================================================================
