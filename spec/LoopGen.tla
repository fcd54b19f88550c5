------------------------------- MODULE LoopGen -------------------------------
(***************************************************************************)
(* Behaviours of the transfer loop for replay on the real code.            *)
(* TLC simulates the machine of QLawLoop over integer ticks with a random  *)
(* environment and prints every complete behaviour as JSON: configuration, *)
(* environment script and the expected state after every step.  The        *)
(* harness maps ticks to exact binary fractions, drives the real solver    *)
(* through its public plug-in points so that the script happens, and       *)
(* LoopTrace validates what was recorded.                                  *)
(* prof "A": steering becomes undefined far from the target, outside the   *)
(* relaxed band; prof "B": inside it.                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Part

IPlus(a, b) == a + b
IMinus(a, b) == a - b
ITimes(a, b) == a * b
IOver(a, b) == IF b = 0 THEN 0 ELSE a \div b
ILt(a, b) == {a < b}
ILtV(a, b) == a < b
ZZ == 0
L == INSTANCE QLawLoop WITH APlus <- IPlus, AMinus <- IMinus, ATimes <- ITimes, AOver <- IOver,
                            ALt <- ILt, ALtV <- ILtV, AZero <- ZZ

BIG == 100000
Base == [tf |-> 24, dt |-> 2, mass0 |-> 400, mdot |-> 1, massMin |-> 2, on |-> BIG, off |-> 0,
         b0 |-> 8, floor |-> 2, cap |-> 8, rc |-> 0, rd |-> 0, full |-> FALSE,
         relN |-> 50, nanMax |-> 50, slack |-> 0, prof |-> "A", hold |-> 50]

Configs ==
  CASE Part = "cycle" ->
         { [Base EXCEPT !.tf = tf, !.dt = d, !.on = on, !.off = off] :
             tf \in {24, 30}, d \in {1, 2, 3, -1, -2, -3}, on \in {0, 1, 2, 3, 4, 5, 6, 7}, off \in {0, 1, 2, 3, 4, 6} }
         \* within a percent of a window's end
         \union { [Base EXCEPT !.tf = 1200, !.dt = d, !.on = on, !.off = off, !.mass0 = 4000] :
             d \in {33, 49, 50, 99, -33, -99}, on \in {99, 100, 101, 102, 199}, off \in {50, 98, 99, 100, 148, 149} }
    [] Part = "battery" ->
         { [Base EXCEPT !.tf = 26, !.dt = d, !.on = on, !.off = off, !.b0 = b0, !.rc = rc, !.rd = rd, !.full = f] :
             d \in {1, 2, 3, 4}, on \in {3, BIG}, off \in {0, 3}, b0 \in {1, 2, 3, 4, 5, 8, 9}, rc \in {0, 1, 2, 3}, rd \in {0, 1},
             f \in BOOLEAN }
         \* within a percent of full or of empty
         \union { [Base EXCEPT !.tf = 26, !.dt = d, !.b0 = b0, !.cap = 402, !.rc = rc, !.rd = rd, !.full = f] :
             d \in {1, 2, 3}, b0 \in {3, 202, 399, 402}, rc \in {66, 99, 132, 133, 134, 199}, rd \in {66, 67, 99, 100, 199, 200}, f \in BOOLEAN }
    [] Part = "verdict" ->
         { [Base EXCEPT !.tf = tf, !.dt = d, !.mass0 = m, !.relN = r, !.nanMax = k, !.prof = p, !.hold = hd,
                        !.on = on, !.off = 2] :
             tf \in {1, 6, 11, 12, 20}, d \in {1, 2, -2}, m \in {2, 4, 6, 8, 400}, r \in {1, 2, 3, 5}, k \in {0, 1, 3, 5, 40},
             p \in {"A", "B"}, hd \in {0, 3, 50}, on \in {5, BIG} }
         \* within a percent of the mass limit or of the allotted time
         \union { [Base EXCEPT !.tf = tf, !.dt = d, !.mass0 = 400, !.massMin = mm, !.nanMax = k, !.hold = 50] :
             tf \in {400, 9, 12}, d \in {1, 2, 3, 99, 133, 199}, mm \in {2, 394, 395, 396, 397, 398, 399}, k \in {5, 40, 41, 42, 43, 44} }
         \* the mass and the time run out together
         \union { [Base EXCEPT !.tf = tf, !.dt = d, !.mass0 = 2 + tf, !.relN = r, !.nanMax = k, !.prof = p, !.hold = hd, !.on = on, !.off = 2] :
             tf \in {1, 2, 3, 4}, d \in {1, 2}, r \in {1, 2, 3, 5}, k \in {0, 1, 2, 3, 4, 5, 6, 40, 41, 42, 43}, p \in {"A", "B"}, hd \in {0, 3, 50}, on \in {5, BIG} }
    [] Part = "mixed" ->
         { [Base EXCEPT !.tf = tf, !.dt = d, !.mass0 = m, !.mdot = md, !.relN = r, !.nanMax = k, !.on = on, !.off = off,
                        !.b0 = b0, !.rc = rc, !.rd = rd, !.full = f, !.hold = hd] :
             tf \in {26}, d \in {2, 3}, m \in {6, 400}, md \in {0, 1, 2, 3}, r \in {2, 50}, k \in {2}, on \in {4, BIG},
             off \in {0, 3}, b0 \in {2, 5, 8}, rc \in {1, 2}, rd \in {0, 1}, f \in BOOLEAN, hd \in {4, 50} }

VARIABLES c, s, e, nan, hist
vars == <<c, s, e, nan, hist>>

\* steering undefined with probability 1/4 where the profile allows it, coasting with probability 1/3
NanOK(cc, cls) == IF cc.prof = "A" THEN (IF cls = "none" THEN {FALSE, TRUE} ELSE {FALSE})
                  ELSE (IF cls = "none" THEN {TRUE} ELSE IF cls = "relaxed" THEN {FALSE, TRUE} ELSE {FALSE})
NanPart == Part \in {"verdict", "mixed"}
Pick(r, S) == IF S = {TRUE} THEN TRUE ELSE IF S = {FALSE} THEN FALSE ELSE NanPart /\ r % 4 = 0

ClsOf(cc, st, r) ==
  IF Part \in {"cycle", "battery"} THEN "none"
  ELSE IF st.n + 1 > cc.hold /\ r % 6 = 0 THEN "tight" ELSE IF r % 3 = 1 \/ (cc.prof = "B" /\ r % 8 # 0) THEN "relaxed" ELSE "none"

Init == /\ c \in Configs
        /\ s = L!Start(c)
        /\ e = [dt0 |-> c.dt, nan |-> FALSE, coast |-> FALSE, cls |-> "none", r |-> 0]
        /\ nan = (c.prof = "B")
        /\ hist = <<>>

Guard == s.pc = "guard" /\ s' \in L!GuardNext(c, s) /\ UNCHANGED <<c, e, nan, hist>>
Gate == s.pc = "gate" /\ s' \in L!GateNext(c, s, e) /\ UNCHANGED <<c, e, nan, hist>>
Steer == /\ s.pc = "steer"
         /\ \E r \in 0..2 : e' = [e EXCEPT !.nan = nan, !.coast = (r = 0), !.r = r]
         /\ s' \in L!SteerNext(c, s, e')
         /\ UNCHANGED <<c, nan, hist>>
Prop == /\ s.pc = "prop"
        /\ \E r \in 0..23 : /\ e' = [e EXCEPT !.cls = ClsOf(c, s, r), !.r = r]
                            /\ nan' = Pick(r \div 6, NanOK(c, e'.cls))
        /\ s' \in L!PropNext(c, s, e')
        /\ UNCHANGED <<c, hist>>
Check == /\ s.pc = "check"
         /\ s' \in L!CheckNext(c, s)
         /\ hist' = Append(hist, [nan |-> e.nan, coast |-> e.coast, cls |-> e.cls, nextnan |-> nan,
                                  t |-> s.t, mass |-> s.mass, batt |-> s.batt, duty |-> s.duty,
                                  dt |-> s.dt, thr |-> s.throttle])
         /\ UNCHANGED <<c, e, nan>>
Next == Guard \/ Gate \/ Steer \/ Prop \/ Check
Spec == Init /\ [][Next]_vars

Out == s.pc = "end" => PrintT("BEHAVIOUR " \o ToJson([c |-> c, nan0 |-> (c.prof = "B"), steps |-> hist, code |-> s.code,
                                              lastnan |-> nan, coastlast |-> e.coast]))
=============================================================================
