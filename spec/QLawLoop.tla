------------------------------ MODULE QLawLoop ------------------------------
(***************************************************************************)
(* The transfer loop of pyqlaw: one explicit state machine.                *)
(*                                                                         *)
(* A solve repeats, in this order,                                         *)
(*   guard -> gate -> steer -> prop -> check -> guard ...  -> end          *)
(* and each phase below is one action, in the order the code performs it:  *)
(*   Guard  stop when the allotted time is used up                         *)
(*   Gate   duty cycle, battery depletion, full-recharge hysteresis,       *)
(*          shortening of a step that would drain the battery              *)
(*   Steer  undefined steering, efficiency coasting                        *)
(*   Prop   advance time, mass, battery; the orbit moves (environment)     *)
(*   Check  tolerance, relaxed tolerance, mass limit                       *)
(*                                                                         *)
(* The module is generic in its arithmetic.  MCLoop and LoopGen instantiate*)
(* it with TLC integers (exhaustive checking, behaviour generation) and    *)
(* LoopTrace with decimal numbers (validation of recorded executions), so  *)
(* the machine that is model checked is the machine the code is held to.   *)
(* ALt returns the SET of possible truth values of a comparison: a         *)
(* singleton in exact arithmetic, both values for a floating-point tie of  *)
(* computed quantities.  ALtV compares stored quantities, where there is   *)
(* no rounding and hence no tie.                                           *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS APlus(_, _), AMinus(_, _), ATimes(_, _), AOver(_, _), ALt(_, _), ALtV(_, _), AZero

(***************************************************************************)
(* c, the problem: tf dt mass0 mdot massMin on off b0 floor cap rc rd full *)
(*                 relN nanMax slack                                       *)
(*   (rc, rd: charge and discharge rate; full: full recharge required;     *)
(*    relN: relaxed passes needed; slack: tolerance of the depletion test) *)
(* e, the environment of one iteration:                                    *)
(*   dt0   nominal step length (fixed, or from the eccentric anomaly)      *)
(*   nan   steering undefined at the current state                         *)
(*   coast efficiency below threshold                                      *)
(*   cls   "tight" / "relaxed" / "none": tolerances met by the next state  *)
(***************************************************************************)

AAbs(a) == IF ALtV(a, AZero) THEN AMinus(AZero, a) ELSE a
AGt(a, b) == ALt(b, a)
ALeV(a, b) == ~ALtV(b, a)
AMin(a, b) == IF ALtV(b, a) THEN b ELSE a
AMax(a, b) == IF ALtV(a, b) THEN b ELSE a
Clip(x, lo, hi) == AMin(AMax(x, lo), hi)

Phases == {"guard", "gate", "steer", "prop", "check", "end"}
Codes  == {0, 1, 2, -1, -2, -3}

Start(c) ==
  [pc |-> "guard", t |-> AZero, mass |-> c.mass0, batt |-> c.b0,
   duty |-> TRUE, lastOn |-> AZero, lastOff |-> AZero, charging |-> FALSE,
   dt |-> AZero, throttle |-> 0, why |-> "on", cls |-> "start",
   nRel |-> 0, nNan |-> 0, n |-> 0, code |-> 0]

\* ---- Guard ---------------------------------------------------------------
GuardNext(c, s) ==
  {IF ALtV(AAbs(s.t), AAbs(c.tf)) THEN [s EXCEPT !.pc = "gate"] ELSE [s EXCEPT !.pc = "end", !.code = -2]}

\* ---- Gate ----------------------------------------------------------------
\* the ON window ends at the first boundary at which MORE than c.on has elapsed
CycleOff(c, s) ==
  IF ~s.duty THEN {s}
  ELSE { IF x THEN [s EXCEPT !.duty = FALSE, !.lastOff = s.t, !.why = "cycle"] ELSE s
         : x \in AGt(AAbs(AMinus(s.t, s.lastOn)), c.on) }
CycleOn(c, s) ==
  IF s.duty THEN {s}
  ELSE { IF x THEN [s EXCEPT !.duty = TRUE, !.lastOn = s.t, !.why = "on"] ELSE s
         : x \in AGt(AAbs(AMinus(s.t, s.lastOff)), c.off) }
Deplete(c, s) ==
  {IF ALeV(s.batt, APlus(c.floor, c.slack))
   THEN [s EXCEPT !.duty = FALSE, !.lastOff = s.t, !.charging = TRUE, !.why = "empty"] ELSE s}
Recharge(c, s) ==
  {IF c.full /\ s.charging /\ ALtV(s.batt, c.cap)
   THEN [s EXCEPT !.duty = FALSE, !.why = IF s.why = "empty" THEN "empty" ELSE "recharge"] ELSE s}
\* an enabled step that would take the battery below the floor ends at the floor
Shorten(c, s, dt0) ==
  IF ~s.duty THEN {[s EXCEPT !.dt = dt0]}
  ELSE { IF x THEN [s EXCEPT !.dt = AOver(AMinus(s.batt, c.floor), c.rd)] ELSE [s EXCEPT !.dt = dt0]
         : x \in ALt(AMinus(s.batt, ATimes(c.rd, dt0)), c.floor) }

GateNext(c, s, e) ==
  UNION { UNION { UNION { UNION { {[s5 EXCEPT !.pc = "steer"] : s5 \in Shorten(c, s4, e.dt0)}
      : s4 \in Recharge(c, s3) } : s3 \in Deplete(c, s2) } : s2 \in CycleOn(c, s1) } : s1 \in CycleOff(c, s) }

\* ---- Steer ---------------------------------------------------------------
SteerNext(c, s, e) ==
  IF ~s.duty THEN {[s EXCEPT !.pc = "prop", !.throttle = 0]}
  ELSE IF e.nan
       THEN IF s.nNan + 1 > c.nanMax
            THEN {[s EXCEPT !.pc = "end", !.nNan = @ + 1, !.code = -3]}
            ELSE {[s EXCEPT !.pc = "prop", !.throttle = 0, !.nNan = @ + 1]}
       ELSE {[s EXCEPT !.pc = "prop", !.throttle = IF e.coast THEN 0 ELSE 1]}

\* ---- Prop ----------------------------------------------------------------
BattNext(c, s) == IF s.duty THEN Clip(AMinus(s.batt, ATimes(c.rd, s.dt)), c.floor, c.cap)
                            ELSE Clip(APlus(s.batt, ATimes(c.rc, s.dt)), c.floor, c.cap)
PropNext(c, s, e) ==
  LET b == BattNext(c, s)
  IN {[s EXCEPT !.pc = "check", !.t = APlus(@, s.dt), !.batt = b,
         !.mass = IF s.throttle = 1 THEN AMinus(@, ATimes(c.mdot, s.dt)) ELSE @,
         !.charging = IF ~s.duty /\ ALeV(c.cap, b) THEN FALSE ELSE @,
         !.cls = e.cls, !.n = @ + 1]}

\* ---- Check ---------------------------------------------------------------
CheckNext(c, s) ==
  IF s.cls = "tight" THEN {[s EXCEPT !.pc = "end", !.code = 1]}
  ELSE LET r == IF s.cls = "relaxed" THEN s.nRel + 1 ELSE s.nRel
       IN IF s.cls = "relaxed" /\ r >= c.relN THEN {[s EXCEPT !.pc = "end", !.code = 2, !.nRel = r]}
          ELSE {IF ALeV(s.mass, c.massMin) THEN [s EXCEPT !.pc = "end", !.code = -1, !.nRel = r]
                                           ELSE [s EXCEPT !.pc = "guard", !.nRel = r]}

\* ---- the machine -----------------------------------------------------------
PhaseNext(c, s, e) ==
  CASE s.pc = "guard" -> GuardNext(c, s)
    [] s.pc = "gate"  -> GateNext(c, s, e)
    [] s.pc = "steer" -> SteerNext(c, s, e)
    [] s.pc = "prop"  -> PropNext(c, s, e)
    [] s.pc = "check" -> CheckNext(c, s)
    [] s.pc = "end"   -> {}

Converged(s) == s.code \in {1, 2}
=============================================================================
