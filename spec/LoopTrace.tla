------------------------------ MODULE LoopTrace ------------------------------
(***************************************************************************)
(* Is a recorded solve a behaviour of QLawLoop?  Every recorded step is    *)
(* pushed through the five actions of the machine, in decimal arithmetic.  *)
(* What the histories do not show (duty, window starts, charging, counters)*)
(* is kept as the SET S of machine states that explain the record so far.  *)
(* Verdicts are total: a step the machine cannot explain adds a failing    *)
(* clause, named with the property it belongs to, and the machine is       *)
(* re-synchronised on the record so that the rest is judged too.           *)
(***************************************************************************)
EXTENDS Converge, FiniteSets, TLC, Json, IOUtils, Orbit

Traces == ndJsonDeserialize(IOEnv.TRACE)

DPlus(a, b) == Add(a, b)
DMinus(a, b) == Sub(a, b)
DTimes(a, b) == Mul(a, b)
DOver(a, b) == Div(a, b)
DZero == N(0)
DLtV(a, b) == Lt(a, b)
DLtX(a, b) == {Lt(a, b)}
DLtT(a, b) == IF Le(Abs(Sub(a, b)), Mul("1e-9", Max2(1, Max2(Abs(a), Abs(b))))) THEN {TRUE, FALSE} ELSE {Lt(a, b)}

X == INSTANCE QLawLoop WITH APlus <- DPlus, AMinus <- DMinus, ATimes <- DTimes, AOver <- DOver,
                            ALt <- DLtX, ALtV <- DLtV, AZero <- DZero
T == INSTANCE QLawLoop WITH APlus <- DPlus, AMinus <- DMinus, ATimes <- DTimes, AOver <- DOver,
                            ALt <- DLtT, ALtV <- DLtV, AZero <- DZero

VARIABLES tr, ok, l, S, v, done      \* ok: the record can be judged step by step
vars == <<tr, ok, l, S, v, done>>

R == Traces[tr]
Cfg(r) == [tf |-> N(r.cfg.tf), dt |-> N(r.cfg.dt), mass0 |-> N(r.cfg.mass0), mdot |-> N(r.cfg.mdot),
           massMin |-> N(r.cfg.massMin), on |-> N(r.cfg.on), off |-> N(r.cfg.off), b0 |-> N(r.cfg.b0),
           floor |-> N(r.cfg.floor), cap |-> N(r.cfg.cap), rc |-> N(r.cfg.rc), rd |-> N(r.cfg.rd),
           full |-> r.cfg.full, relN |-> r.cfg.relN, nanMax |-> r.cfg.nanMax, slack |-> N("1e-12")]

Steps(r) == Len(r.times) - 1
\* ---- clauses that concern the record as a whole (C01) -----------------------
ShapeOK(r) == /\ Len(r.times) >= 1
              /\ Len(r.states) = Len(r.times) /\ Len(r.mass) = Len(r.times) /\ Len(r.batt) = Len(r.times)
              /\ Len(r.ctrl) = Steps(r) /\ Len(r.etas) = Steps(r) /\ Len(r.bounds) = Steps(r)
              /\ Len(r.Qs) = Steps(r) /\ Len(r.dQ) = Steps(r)
              /\ \A j \in 1..Len(r.states) : Len(r.states[j]) = 6
              /\ \A j \in 1..Steps(r) : Len(r.ctrl[j]) = 3 /\ Len(r.etas[j]) = 2 /\ Len(r.bounds[j]) = 2

Clamped(r, oe) == IF r.et = "keplerian"
                  THEN [j \in 1..6 |-> IF j <= 5 THEN Min2(Max2(oe[j], r.oemin[j]), r.oemax[j]) ELSE oe[j]] ELSE oe
FirstOK(r) == /\ Eq(r.times[1], 0) /\ Eq(r.mass[1], r.cfg.mass0) /\ Eq(r.batt[1], r.cfg.b0)
              /\ (\/ \A j \in 1..6 : Eq(r.states[1][j], Clamped(r, r.oe0)[j])
                  \* a run that was not even begun has not been clamped either
                  \/ Steps(r) = 0 /\ \A j \in 1..6 : Eq(r.states[1][j], r.oe0[j]))
\* an orbit that a step has carried out of the elements' range (unbound, no anomaly) ends what can be judged; whether the step
\* really leads there is StepTrace's question
FinState(r, j) == (\A q \in 1..6 : IsFin(r.states[j][q])) /\ (r.exact \/ Bound(r.et, r.states[j]))
Least(B) == CHOOSE b \in B : \A q \in B : b <= q
Horizon(r) == LET bad == {j \in 1..Len(r.states) : ~FinState(r, j)} IN IF bad = {} THEN Len(r.states) ELSE Least(bad) - 1
Shape(r) ==
   IF r.error # "" THEN {<<0, IF r.endless THEN "C03" ELSE "C01", IF r.endless THEN "endless" ELSE "crash", r.error>>}
   ELSE IF ~ShapeOK(r) THEN {<<0, "C01", "lengths", "histories are not aligned">>}
   ELSE LET hz == Horizon(r) IN
        (IF FirstOK(r) THEN {} ELSE {<<0, "C01", "first", "first entries are not the stated problem">>})
        \union {<<j, "C01", "direction", "time does not advance in the direction of the step">> :
                  j \in {k \in 1..Steps(r) : k <= hz /\ ~Gt(Mul(r.cfg.dt, Sub(r.times[k+1], r.times[k])), 0)}}
        \union {<<j, "C01", "finite", "non-finite entry">> :
                  j \in {k \in 1..Len(r.times) : k <= hz /\ (~IsFin(r.times[k]) \/ ~IsFin(r.mass[k]) \/ ~IsFin(r.batt[k]))}}

\* ---- one recorded step -----------------------------------------------------
AtBound(r, j, i) == r.et = "keplerian" /\ (Eq(r.states[j][i], r.oemin[i]) \/ Eq(r.states[j][i], r.oemax[i]))
StateClasses(r, j) ==
   IF j < Len(r.states) /\ \E i \in 1..5 : ~Eq(r.woe[i], 0) /\ AtBound(r, j, i)
   THEN {"tight", "relaxed", "none"}        \* the tested state was outside the bounds and is recorded inside them
   ELSE Classes(r.et, r.states[j], r.oeT, r.woe, r.tol, r.relf)

Nominal(r, j) == IF r.sund THEN SundmanStep(r.et, r.states[j], r.mu, r.cfg.dt) ELSE N(r.cfg.dt)

GuardN(r, c, s) == X!GuardNext(c, s)
GateN(r, c, s, e) == IF r.exact THEN X!GateNext(c, s, e) ELSE T!GateNext(c, s, e)

Tol(r) == IF r.exact THEN N(0) ELSE N("1e-11")
SameQ(r, a, b) == Close(a, b, Tol(r), Mul(Tol(r), "1e-2"))

HasBattery(c) == ~(Eq(c.rd, 0) /\ Eq(c.rc, 0)) \/ Le(c.b0, c.floor)
HasCycle(c) == Lt(c.on, "1e15")
EnableTags(c) == (IF HasCycle(c) THEN {"C05"} ELSE {}) \union (IF HasBattery(c) THEN {"C07"} ELSE {})
                 \union (IF ~HasCycle(c) /\ ~HasBattery(c) THEN {"C05", "C07"} ELSE {})
Tagged(tags, j, clause, text) == {<<j, tag, clause, text>> : tag \in tags}

StepJudge(r, c, j, S0) ==
  LET dtO  == Sub(r.times[j+1], r.times[j])
      thr  == r.ctrl[j][3]
      nan  == ~IsFin(r.dQ[j])
      defd == IsFin(r.bounds[j][1]) \/ IsFin(r.bounds[j][2])
      e    == [dt0 |-> Nominal(r, j), nan |-> nan, coast |-> Eq(thr, 0), cls |-> "none"]
      \* guard
      S1   == {s \in UNION {GuardN(r, c, s) : s \in S0} : s.pc = "gate"}
      vG   == IF S1 = {} THEN {<<j, "C03", "overtime", "a step was taken although the allotted time was used up">>} ELSE {}
      S1r  == IF S1 = {} THEN {[s EXCEPT !.pc = "gate"] : s \in S0} ELSE S1
      \* gate
      S2   == UNION {GateN(r, c, s, e) : s \in S1r}
      fits(s) == IF s.duty THEN defd = ~nan ELSE ~defd
      S3   == {s \in S2 : fits(s)}
      why  == (CHOOSE s \in S2 : TRUE).why
      vE   == IF S3 = {} THEN Tagged(EnableTags(c), j, "enable",
                  IF defd THEN "enabled although disabled by: " \o why ELSE "disabled although enabled") ELSE {}
      S3r  == IF S3 = {} THEN {[s EXCEPT !.duty = defd, !.lastOn = IF defd THEN s.t ELSE @, !.lastOff = IF defd THEN @ ELSE s.t,
                                         !.dt = dtO] : s \in S2} ELSE S3
      anyOn == \E s \in S3r : s.duty
      \* step length
      S4   == {s \in S3r : SameQ(r, s.dt, dtO)}
      \* a step that ends at the battery floor may be longer or shorter by rounding of the battery level
      vD   == IF S3 # {} /\ S4 = {} THEN {<<j, "C09", "step", "expected " \o Str((CHOOSE s \in S3r : TRUE).dt) \o " got " \o Str(dtO)>>} ELSE {}
      S4r  == {[s EXCEPT !.dt = dtO] : s \in IF S4 = {} THEN S3r ELSE S4}
      vW   == IF HasBattery(c) /\ anyOn /\ Gt(dtO, 0)
                 /\ \A s \in S4r : s.duty => Gt(Mul(c.rd, dtO), Add(Sub(s.batt, c.floor), "1e-9"))
              THEN {<<j, "C07", "energy", "the step needs more energy than is left above the minimum">>} ELSE {}
      \* steer
      vT   == (IF ~Eq(thr, 0) /\ ~Eq(thr, 1)
               THEN Tagged({"C04", "C01"}, j, "throttle", "throttle is neither 0 nor 1") ELSE {})
              \union (IF Eq(thr, 1) /\ ~anyOn
               THEN Tagged(EnableTags(c) \union {"C04"}, j, "thrust-disabled", "thrust on a step on which the thruster is disabled") ELSE {})
              \union (IF nan /\ anyOn /\ ~Eq(thr, 0)
               THEN {<<j, "C20", "thrust-undefined", "thrust although the steering is undefined">>} ELSE {})
              \union (IF nan /\ anyOn /\ ~(Eq(r.ctrl[j][1], 0) /\ Eq(r.ctrl[j][2], 0))
               THEN {<<j, "C20", "angles-undefined", "angles are not zero on a step with undefined steering">>} ELSE {})
      S5   == {s \in UNION {X!SteerNext(c, s, e) : s \in S4r} : s.pc = "prop"}
      vN   == IF S5 = {} THEN {<<j, "C20", "nan-continued", "the run went on after undefined steering exceeded the allowance">>} ELSE {}
      S5r  == IF S5 = {} THEN {[s EXCEPT !.pc = "prop", !.throttle = 0, !.nNan = 0] : s \in S4r} ELSE S5
      \* efficiency
      ba   == r.bounds[j][1]
      br   == r.bounds[j][2]
      ea   == r.etas[j][1]
      er   == r.etas[j][2]
      gate == Gt(ba, 0) \/ Gt(br, 0)
      below == gate /\ (Lt(ea, ba) \/ Lt(er, br))
      vC   == IF ~defd \/ nan THEN {}
              ELSE (IF below # Eq(thr, 0)
                    THEN {<<j, "C08", "coast", IF below THEN "thrust although an efficiency is below its threshold"
                                               ELSE "coast although no efficiency is below its threshold">>} ELSE {})
                   \union (IF gate /\ ~(IsFin(ea) /\ (IsFin(er) \/ r.grid = 1))   \* a grid of one point has no best and worst
                    THEN {<<j, "C08", "efficiency", "efficiency not recorded although a threshold is set">>} ELSE {})
      vB   == IF ~defd \/ nan \/ ~r.fixeta THEN {}
              ELSE IF Eq(ba, r.etafix[1]) /\ Eq(br, r.etafix[2]) THEN {}
              ELSE {<<j, "C08", "threshold", "recorded thresholds are not the given ones">>}
      \* prop
      S6   == UNION {X!PropNext(c, s, e) : s \in S5r}
      mOK  == {s \in S6 : SameQ(r, s.mass, r.mass[j+1])}
      bOK  == {s \in S6 : SameQ(r, s.batt, r.batt[j+1])}
      vM   == IF mOK = {} THEN {<<j, "C04", "mass", "expected " \o Str((CHOOSE s \in S6 : TRUE).mass) \o " got " \o Str(r.mass[j+1])>>} ELSE {}
      vBt  == IF r.backward /\ HasBattery(c) THEN {}
              ELSE IF bOK = {} THEN {<<j, "C06", "battery", "expected " \o Str((CHOOSE s \in S6 : TRUE).batt) \o " got " \o Str(r.batt[j+1])>>} ELSE {}
      vBr  == IF Lt(r.batt[j+1], c.floor) \/ Gt(r.batt[j+1], c.cap)
              THEN {<<j, "C06", "capacity", "battery outside its capacity">>} ELSE {}
      S7   == {[s EXCEPT !.t = N(r.times[j+1]), !.mass = N(r.mass[j+1]), !.batt = N(r.batt[j+1]),
                         !.charging = IF ~s.duty /\ Ge(r.batt[j+1], c.cap) THEN FALSE ELSE @]
               : s \in IF bOK = {} THEN S6 ELSE bOK}
      \* check
      cls  == StateClasses(r, j + 1)
      S8   == UNION {UNION {X!CheckNext(c, [s EXCEPT !.cls = k]) : k \in cls} : s \in S7}
      last == j = Steps(r)
      S9   == IF last THEN S8 ELSE {s \in S8 : s.pc = "guard"}
      vP   == IF S9 = {} THEN {<<j, "C03", "continued", "the run went on past a terminal state, code "
                                  \o ToString((CHOOSE s \in S8 : TRUE).code)>>} ELSE {}
      S9r  == IF S9 = {} THEN {[s EXCEPT !.pc = "guard", !.code = 0, !.nRel = 0] : s \in S8} ELSE S9
  IN [S |-> S9r, v |-> vG \union vE \union vD \union vW \union vT \union vN \union vC \union vB \union vM \union vBt \union vBr \union vP]

\* ---- the end of the record ---------------------------------------------------
\* ways the machine can end from here without recording another step
EndSet(r, c, S0) ==
  LET ended == {s \in S0 : s.pc = "end"}
      G  == UNION {GuardN(r, c, s) : s \in {q \in S0 : q.pc = "guard"}}
      j  == Steps(r) + 1
      \* undefined steering at the final state ends the run without a step
      e  == [dt0 |-> Nominal(r, j), nan |-> TRUE, coast |-> FALSE, cls |-> "none"]
      N3 == IF r.lastnan = "no" THEN {}
            ELSE {s \in UNION {X!SteerNext(c, q, e) : q \in UNION {GateN(r, c, s, e) : s \in {q \in G : q.pc = "gate"}}} : s.pc = "end"}
  IN ended \union {s \in G : s.pc = "end"} \union N3

LastStep(r) == IF Steps(r) = 0 THEN N(0) ELSE Abs(Sub(r.times[Len(r.times)], r.times[Len(r.times) - 1]))
FinalJudge(r, c, S0) ==
  LET E == EndSet(r, c, S0)
      codes == {s.code : s \in E}
      convOK == r.conv = (r.code \in {1, 2})
  IN (IF E = {} THEN Tagged({"C03"} \union (IF r.code = -3 THEN {"C20"} ELSE {}) \union (IF r.code \in {-2} THEN {} ELSE {"C02"}), Steps(r), "stopped",
                            "the run stopped without a cause, code " \o ToString(r.code)) ELSE {})
     \union (IF E # {} /\ r.code \notin codes
             THEN Tagged({"C02"} \union (IF r.code = -3 \/ -3 \in codes THEN {"C20"} ELSE {}), Steps(r), "verdict",
                         "code " \o ToString(r.code) \o " expected " \o ToString(codes)) ELSE {})
     \union (IF convOK THEN {} ELSE {<<Steps(r), "C02", "flag", "converged flag does not match code " \o ToString(r.code)>>})
     \union (IF Gt(Abs(r.times[Len(r.times)]), Add(Abs(r.cfg.tf), LastStep(r)))
             THEN {<<Steps(r), "C03", "overshoot", "time runs past the allotted time">>} ELSE {})

\* threshold functions are called with what is recorded (C08)
CallJudge(r) ==
  IF ~r.haseta \/ r.cut \/ r.error # "" \/ ~ShapeOK(r) THEN {}
  ELSE LET same(call, j) == /\ Eq(call.t, r.times[j]) /\ Eq(call.m, r.mass[j]) /\ Eq(call.b, r.batt[j])
                            /\ Len(call.oe) = 6 /\ \A q \in 1..6 : Eq(call.oe[q], r.states[j][q])
           stray == {k \in 1..Len(r.etacalls) : ~\E j \in 1..Len(r.times) : same(r.etacalls[k], j)}
           missing == {j \in 1..Steps(r) : (IsFin(r.bounds[j][1]) \/ IsFin(r.bounds[j][2]))
                                           /\ ~\E k \in 1..Len(r.etacalls) : same(r.etacalls[k], j)}
           \* the recorded threshold is what the function returned there
           wrong == {k \in 1..Len(r.etacalls) : r.etacalls[k].ret # "?" /\
                        \E j \in 1..Steps(r) : /\ same(r.etacalls[k], j)
                                               /\ IsFin(r.bounds[j][r.etacalls[k].which])
                                               /\ ~Eq(r.bounds[j][r.etacalls[k].which], r.etacalls[k].ret)}
       IN {<<k, "C08", "call", "threshold function called with values that are not the current ones">> : k \in stray}
          \union {<<j, "C08", "uncalled", "threshold function not evaluated at this step">> : j \in missing}
          \union {<<k, "C08", "threshold", "recorded threshold is not the value the function returned">> : k \in wrong}

\* a replayed behaviour happened as scripted (machinery check: never a violation by itself)
------------------------------------------------------------------------------
Init == /\ tr \in 1..Len(Traces)
        /\ ok = (Traces[tr].error = "" /\ ShapeOK(Traces[tr]))
        /\ l = 1 /\ done = FALSE
        /\ S = {X!Start(Cfg(Traces[tr]))}
        /\ v = Shape(Traces[tr]) \union CallJudge(Traces[tr])

Consume == /\ ~done /\ ok /\ l <= Steps(R) /\ FinState(R, l)
           /\ LET q == StepJudge(R, Cfg(R), l, S) IN S' = q.S /\ v' = v \union q.v
           /\ l' = l + 1 /\ UNCHANGED <<tr, ok, done>>
Finish == /\ ~done /\ (~ok \/ l > Steps(R) \/ ~FinState(R, l))
          /\ v' = IF ok /\ ~R.cut /\ l > Steps(R) /\ FinState(R, l) THEN v \union FinalJudge(R, Cfg(R), S) ELSE v
          /\ done' = TRUE /\ UNCHANGED <<tr, ok, l, S>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars

Report == done => PrintT("VERDICT " \o ToJson([id |-> R.id, steps |-> l - 1, v |-> v]))
=============================================================================
