------------------------------ MODULE MC_Layers -----------------------------
(* Composition of the three safety layers in one simulator step.            *)
EXTENDS AltitudeSafety, EnvelopeSafety, PowerSafety, TLC, Json
VARIABLES alt, env, pow, on, eff, cmd, why

PowIn == { p \in [phase : {"day", "night"}, low : BOOLEAN, insuf : BOOLEAN] :
             (p.phase = "day" => ~p.insuf) }
vars == <<alt, env, pow, on, eff, cmd, why>>
Init == /\ alt = "NOMINAL" /\ env = "NOMINAL" /\ pow = FALSE /\ on \in BOOLEAN
        /\ eff = "STAY" /\ cmd = "STAY" /\ why = "init"
Step(c, az, ez, p) ==
  LET np == IF on THEN PowNext(pow, p.phase, p.low, p.insuf) ELSE pow
      ne == EnvNext(env, ez)
      na == AltNext(alt, az)
      c1 == IF on THEN PowFilter(np, c) ELSE c
  IN /\ pow' = np /\ env' = ne /\ alt' = na /\ on' = on /\ cmd' = c
     /\ eff' = AltFilter(na, EnvFilter(ne, c1))
     /\ why' = IF na = "VERY_LOW" THEN "alt"
               ELSE IF ne \in {"LOW_CRITICAL", "HIGH_CRITICAL"} THEN "env" ELSE "cmd"
Next == \E c \in Commands, az \in AltZones, ez \in EnvZones, p \in PowIn : Step(c, az, ez, p)
Spec == Init /\ [][Next]_vars

TypeOK == alt \in AltStates /\ env \in EnvStates /\ pow \in BOOLEAN /\ eff \in Commands
DescentIsCommandedAndPermitted ==
  eff = "DOWN" => cmd = "DOWN" /\ alt = "NOMINAL" /\ env = "NOMINAL" /\ ~(on /\ pow)
AscentIsCommandedOrForced == eff = "UP" => cmd = "UP" \/ why # "cmd"
ForcedAscent == why \in {"alt", "env"} => eff = "UP"
UpIsNeverBlocked == cmd = "UP" => eff = "UP"
DisabledPowerNeverPauses == ~on => ~pow
Emit == PrintT("STATE " \o ToJson([alt |-> alt, env |-> env, pow |-> pow, on |-> on]))
=============================================================================
