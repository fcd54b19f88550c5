------------------------------- MODULE MCLoop -------------------------------
(***************************************************************************)
(* Exhaustive model checking of the transfer loop over small integers, for *)
(* every configuration in Configs and EVERY environment (steering defined  *)
(* or not, efficient or not, any convergence class after every step).      *)
(* h holds ghost observations written without looking at the machine's own *)
(* bookkeeping (window start times as seen from outside, thrusting time,   *)
(* depletion seen, relaxed passes seen), against which the invariants are  *)
(* stated.                                                                 *)
(***************************************************************************)
EXTENDS Integers, FiniteSets, TLC

CONSTANTS Part,    \* which part of the configuration space
          Lean     \* TRUE: fewer configurations and no environment choices irrelevant to the part

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ITimes(a, b) == a * b
IOver(a, b) == IF b = 0 THEN 0 ELSE a \div b
ILt(a, b) == {a < b}
ILtV(a, b) == a < b
ZZ == 0
L == INSTANCE QLawLoop WITH APlus <- IPlus, AMinus <- IMinus, ATimes <- ITimes, AOver <- IOver,
                            ALt <- ILt, ALtV <- ILtV, AZero <- ZZ

Base == [tf |-> 9, dt |-> 2, mass0 |-> 100, mdot |-> 1, massMin |-> 2, on |-> 1000, off |-> 0,
         b0 |-> 6, floor |-> 2, cap |-> 6, rc |-> 0, rd |-> 0, full |-> FALSE,
         relN |-> 3, nanMax |-> 2, slack |-> 0]

Abs(x) == IF x < 0 THEN -x ELSE x

Configs ==
  CASE Part = "cycle" ->      \* duty cycle alone, both time directions
         { [Base EXCEPT !.tf = tf, !.dt = d, !.on = on, !.off = off] :
             tf \in {IF Lean THEN 12 ELSE 15}, d \in IF Lean THEN {1, 2, -2} ELSE {1, 2, 3, -1, -2},
             on \in {0, 1, 2, 3, 5, 1000}, off \in {0, 1, 2, 4} }
    [] Part = "battery" ->    \* battery, with and without full recharge, with and without duty cycle
         { [Base EXCEPT !.tf = 14, !.dt = d, !.on = on, !.off = off, !.b0 = b0, !.rc = rc, !.rd = rd, !.full = f] :
             d \in IF Lean THEN {2, 3} ELSE {1, 2, 3}, on \in {2, 1000}, off \in {0, 2},
             b0 \in IF Lean THEN {1, 3, 6} ELSE {1, 2, 3, 4, 6, 7}, rc \in {0, 1, 2}, rd \in {0, 1}, f \in BOOLEAN }
    [] Part = "verdict" ->    \* terminal causes and their coincidences, both time directions
         { [Base EXCEPT !.tf = tf, !.dt = d, !.mass0 = m, !.relN = r, !.nanMax = k] :
             tf \in {0, 5, 8}, d \in {1, 2, -2}, m \in {2, 4, 6, 100}, r \in {1, 2, 3}, k \in {0, 1, 3} }

VARIABLES c, s, e, h
vars == <<c, s, e, h>>

Nans   == IF Lean /\ Part # "verdict" THEN {FALSE} ELSE BOOLEAN
Coasts == IF Lean /\ Part = "battery" THEN {FALSE} ELSE BOOLEAN
Classes == IF Lean /\ Part # "verdict" THEN {"none"} ELSE {"tight", "relaxed", "none"}

\* ghosts: thrustTime, onAt/offAt = time of the last change of the enabled signal as seen from outside,
\* en = last seen enabled signal, dep = depletion seen and not yet full, rel = relaxed states seen, nans
H0 == [thrust |-> 0, en |-> TRUE, onAt |-> 0, offAt |-> 0, dep |-> FALSE, rel |-> 0, nans |-> 0, bad |-> FALSE]

Init == /\ c \in Configs
        /\ s = L!Start(c)
        /\ e = [dt0 |-> c.dt, nan |-> FALSE, coast |-> FALSE, cls |-> "none"]
        /\ h = H0

Guard == s.pc = "guard" /\ s' \in L!GuardNext(c, s) /\ UNCHANGED <<c, e, h>>
Gate == /\ s.pc = "gate"
        /\ s' \in L!GateNext(c, s, [e EXCEPT !.dt0 = c.dt])
        /\ e' = [e EXCEPT !.nan = FALSE, !.coast = FALSE, !.cls = "none"]
        /\ h' = [h EXCEPT !.en = s'.duty,
                          !.onAt = IF s'.duty /\ ~h.en THEN s.t ELSE @,
                          !.offAt = IF (~s'.duty /\ h.en) \/ s.batt <= c.floor THEN s.t ELSE @,
                          !.dep = IF s.batt <= c.floor THEN TRUE ELSE IF s.batt >= c.cap THEN FALSE ELSE @]
        /\ UNCHANGED c
Steer == /\ s.pc = "steer"
         /\ \E nn \in Nans, co \in Coasts : e' = [e EXCEPT !.nan = nn, !.coast = co]
         /\ s' \in L!SteerNext(c, s, e')
         /\ h' = IF s.duty /\ e'.nan THEN [h EXCEPT !.nans = @ + 1] ELSE h
         /\ UNCHANGED c
Prop == /\ s.pc = "prop"
        /\ \E k \in Classes : e' = [e EXCEPT !.cls = k]
        /\ s' \in L!PropNext(c, s, e')
        /\ h' = [h EXCEPT !.thrust = IF s.throttle = 1 THEN @ + (s'.t - s.t) ELSE @,
                          !.rel = IF e'.cls = "relaxed" THEN @ + 1 ELSE @]
        /\ UNCHANGED c
Check == s.pc = "check" /\ s' \in L!CheckNext(c, s) /\ UNCHANGED <<c, e, h>>

Next == Guard \/ Gate \/ Steer \/ Prop \/ Check
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

------------------------------------------------------------------------------
TypeOK == s.pc \in L!Phases /\ s.code \in L!Codes /\ s.throttle \in {0, 1} /\ s.duty \in BOOLEAN
\* C04
MassLaw == s.mass = c.mass0 - c.mdot * h.thrust
\* C06
BatteryBounds == s.n > 0 => (c.floor <= s.batt /\ s.batt <= c.cap)
\* C07
NoThrustWhenEmpty == s.pc \in {"steer", "prop"} /\ s.duty /\ c.dt > 0 =>
                        (s.batt > c.floor /\ c.rd * s.dt <= s.batt - c.floor)
FullRecharge == c.full /\ s.pc \in {"steer", "prop"} /\ h.dep => ~s.duty
ThrustOnlyEnabled == s.pc = "check" /\ s.throttle = 1 => h.en
\* C05: windows as seen from outside; the battery may cut an ON window short or prolong an OFF one
OnWindow  == s.pc \in {"steer", "prop"} /\ s.duty => Abs(s.t - h.onAt) <= c.on
OffWindow == s.pc \in {"steer", "prop"} /\ ~s.duty /\ ~h.dep => Abs(s.t - h.offAt) <= c.off
OffLongEnough == [][s.pc = "gate" /\ ~h.en /\ s'.duty => Abs(s.t - h.offAt) > c.off]_vars
OnLongEnough == [][s.pc = "gate" /\ h.en /\ ~s'.duty /\ s.batt > c.floor => Abs(s.t - h.onAt) > c.on]_vars
\* C09
StepLength == s.pc \in {"steer", "prop"} =>
                 \/ s.dt = c.dt
                 \/ s.duty /\ c.dt > 0 /\ c.rd > 0 /\ s.batt - c.rd * s.dt = c.floor /\ s.dt < c.dt
\* C02
VerdictTrue == s.pc = "end" =>
   /\ s.code # 0
   /\ s.code = 1  => s.n > 0 /\ s.cls = "tight"
   /\ s.code = 2  => s.n > 0 /\ s.cls = "relaxed" /\ h.rel >= c.relN
   /\ s.code = -1 => s.n > 0 /\ s.mass <= c.massMin /\ s.cls # "tight"
   /\ s.code = -2 => Abs(s.t) >= Abs(c.tf)
   /\ s.code = -3 => h.nans = c.nanMax + 1
Precedence == s.pc = "end" /\ s.n > 0 /\ s.code # -3 =>
   s.code = (IF s.cls = "tight" THEN 1
             ELSE IF s.cls = "relaxed" /\ h.rel >= c.relN THEN 2
             ELSE IF s.mass <= c.massMin THEN -1 ELSE -2)
\* C03
NotPastTerminal == s.pc \in {"guard", "gate", "steer", "prop"} /\ s.n > 0 =>
   /\ s.cls # "tight"
   /\ h.rel < c.relN
   /\ s.mass > c.massMin
   /\ s.pc # "guard" => Abs(s.t) < Abs(c.tf)
Overshoot == Abs(s.t) < Abs(c.tf) + Abs(c.dt)
\* C20
NanBudget == h.nans <= c.nanMax \/ (s.pc = "end" /\ s.code = -3)
\* C03: every run ends
Terminates == <>(s.pc = "end")
=============================================================================
