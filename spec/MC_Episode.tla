----------------------------- MODULE MC_Episode -----------------------------
(* Life cycle of an environment: reset, steps in which any combination of   *)
(* terminal conditions may arise, and what is refused afterwards.           *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANT MaxSteps
VARIABLES status, clock, alive   \* clock in steps; alive: flying, may be stepped

Conditions == { c \in [empty : BOOLEAN, over : BOOLEAN, flat : BOOLEAN] : ~(c.over /\ c.flat) }
StatusOf(c) == IF c.empty THEN "OUT_OF_POWER" ELSE IF c.flat THEN "ZEROPRESSURE"
               ELSE IF c.over THEN "BURST" ELSE "OK"
vars == <<status, clock, alive>>
Init == status = "OK" /\ clock = 0 /\ alive = TRUE
Step(c) == /\ alive /\ clock < MaxSteps
           /\ status' = StatusOf(c) /\ alive' = (StatusOf(c) = "OK")
           /\ clock' = IF StatusOf(c) = "OK" THEN clock + 1 ELSE clock
Refuse == ~alive /\ UNCHANGED vars
Reset == status' = "OK" /\ clock' = 0 /\ alive' = TRUE
Next == (\E c \in Conditions : Step(c)) \/ Refuse \/ Reset
Spec == Init /\ [][Next]_vars

TypeOK == status \in {"OK", "OUT_OF_POWER", "BURST", "ZEROPRESSURE"} /\ clock \in 0..MaxSteps
TerminalIffNotOk == alive = (status = "OK")
AtMostOneCause == \A a, b \in {"OUT_OF_POWER", "BURST", "ZEROPRESSURE"} :
                    (status = a /\ status = b) => a = b
Absorbing == [][~alive => (status' = status /\ clock' = clock) \/ (status' = "OK" /\ clock' = 0)]_vars
NoTimeInTerminal == [][status' # "OK" => clock' \in {clock}]_vars

Abs == [status |-> status, clock |-> clock, alive |-> alive]
AbsN == [status |-> status', clock |-> clock', alive |-> alive']
EmitInit == (clock = 0 /\ status = "OK") => PrintT("INIT " \o ToJson(Abs))
Edge(a) == PrintT("EDGE " \o ToJson([f |-> Abs, a |-> a, t |-> AbsN]))
NextE == \/ \E c \in Conditions : Step(c) /\ Edge([kind |-> "step", c |-> c])
         \/ Refuse /\ Edge([kind |-> "refuse"])
         \/ Reset /\ Edge([kind |-> "reset"])
SpecE == Init /\ [][NextE]_vars
=============================================================================
