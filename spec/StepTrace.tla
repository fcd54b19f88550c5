------------------------------ MODULE StepTrace ------------------------------
(***************************************************************************)
(* The continuous side of a recorded solve, one state per recorded step:   *)
(*   C08  efficiencies are current rate over best / worst rate on the      *)
(*        osculating orbit, sampled at the configured points               *)
(*   C10  direction, Lyapunov value and rate are those of the quotient     *)
(*   C11  the recorded controls carry the recorded state to the next one   *)
(*   C17  states inside the bounds; clamped, and only clamped, Keplerian   *)
(*   C20  steering is defined where the quotient has a gradient            *)
(* LoopTrace holds the same record to the discrete machine.                *)
(***************************************************************************)
EXTENDS Lyap, RK, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)

FinV(s) == \A j \in DOMAIN s : IsFin(s[j])
VARIABLES tr, l
vars == <<tr, l>>
Good(r) == r.error = "" /\ Len(r.states) = Len(r.times) /\ Len(r.mass) = Len(r.times) /\ Len(r.states) >= 1
           /\ Len(r.ctrl) = Len(r.times) - 1 /\ Len(r.etas) = Len(r.ctrl) /\ Len(r.bounds) = Len(r.ctrl)
           /\ Len(r.Qs) = Len(r.ctrl) /\ Len(r.dQ) = Len(r.ctrl)
           /\ \A j \in 1..Len(r.states) : Len(r.states[j]) = 6
Init == tr \in 1..Len(Traces) /\ l = 0
Next == /\ l = 0 /\ Good(Traces[tr])
        /\ l' \in {j \in 1..Len(Traces[tr].ctrl) : FinV(Traces[tr].states[j]) /\ Bound(Traces[tr].et, Traces[tr].states[j])}
        /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars

\* signed acceleration of the thruster on a step
AccelSigned(r, j) == LET a == Div(r.tmax, r.mass[j]) IN IF r.backward THEN Negate(a) ELSE a

\* ---- C10 ---------------------------------------------------------------------
Lyapunov(r, j) ==
  LET x == r.states[j]
      f == Div(r.tmax, r.mass[j])
      g == GradQ(r.et, x, r.oeT, r.woe, r.mu, f, r.par)
      m == Sens(r.et, x, r.mu)
      tg == ThrustGrad(r.et, x, r.mu, g)
      \* size of the terms that add up to the gradient: what rounding is relative to
      big == Sqrt(Sum([c \in 1..3 |-> Sq(Sum([k \in 1..5 |-> Abs(Mul(m[k][c], g[k]))]))]))
  IN [q |-> QFun(r.et, x, r.oeT, r.woe, r.mu, f, r.par), g |-> g, tg |-> tg, norm |-> VNorm(tg), big |-> big, f |-> f]
\* the gradient exists and is not lost in rounding
Sharp(r, j, y) == ~Kink(r.et, r.states[j], r.woe, r.par) /\ IsFin(y.q) /\ FinV(y.g) /\ IsFin(y.norm) /\ Gt(y.norm, Mul("1e-6", y.big)) /\ Gt(y.norm, "1e-100") /\ Lt(y.norm, "1e100")
            /\ Lt(y.q, "1e100") /\ Gt(y.q, "1e-60")
STol == N("1e-6")
SteerJudge(r, j, y) ==
  LET d == DirOf(r.ctrl[j][1], r.ctrl[j][2])
      u == Descent(y.tg)
      ae == Mul(y.f, y.norm)
  IN (IF ~Le(VNorm(VSub(d, u)), Add("1e-8", Mul("1e-9", Div(y.big, y.norm))))
      THEN {<<j, "C10", "direction", "direction is not the steepest descent: off by " \o Str(VNorm(VSub(d, u)))>>} ELSE {})
     \union (IF ~Close(r.dQ[j], IF r.backward THEN Negate(ae) ELSE ae, Add("1e-8", Mul("1e-9", Div(y.big, y.norm))), 0)
      THEN {<<j, "C10", "rate", "Lyapunov rate " \o r.dQ[j] \o " expected " \o Str(ae)>>} ELSE {})
ValueJudge(r, j, y) ==
  IF ~Close(r.Qs[j], y.q, "1e-8", 0) THEN {<<j, "C10", "value", "Lyapunov value " \o r.Qs[j] \o " expected " \o Str(y.q)>>} ELSE {}

\* ---- C08 ---------------------------------------------------------------------
\* rates over the osculating orbit (the gradient does not depend on the anomaly)
RatesAround(r, j, y) ==
  LET x == r.states[j]
  IN Tup([k \in 1..r.grid |-> VNorm(ThrustGrad(r.et, [x EXCEPT ![6] = Add(@, Div(Mul(TwoPi, k), r.grid))], r.mu, y.g))])
RECURSIVE MaxOf(_, _), MinOf(_, _)
MaxOf(s, k) == IF k = 1 THEN s[1] ELSE Max2(s[k], MaxOf(s, k - 1))
MinOf(s, k) == IF k = 1 THEN s[1] ELSE Min2(s[k], MinOf(s, k - 1))
EffJudge(r, j, y) ==
  LET rs == RatesAround(r, j, y)
      best == MaxOf(rs, r.grid)
      worst == MinOf(rs, r.grid)
      ea == Div(y.norm, best)
      er == Abs(Div(Sub(y.norm, worst), Sub(best, worst)))
      wide == Div(best, Sub(best, worst))
      ka == Add("1e-8", Mul("1e-8", Div(y.big, y.norm)))
      gate == Gt(r.bounds[j][1], 0) \/ Gt(r.bounds[j][2], 0)
  IN IF ~gate THEN {}
     ELSE (IF ~Close(r.etas[j][1], ea, ka, 0)
           THEN {<<j, "C08", "absolute", "absolute efficiency " \o r.etas[j][1] \o " expected " \o Str(ea)>>} ELSE {})
          \union (IF r.grid > 1 /\ IsFin(wide) /\ Lt(wide, "1e5") /\ ~Close(r.etas[j][2], er, ka, Mul(ka, wide))
           THEN {<<j, "C08", "relative", "relative efficiency " \o r.etas[j][2] \o " expected " \o Str(er)>>} ELSE {})

\* ---- C11 ---------------------------------------------------------------------
Applied(r, j) ==    \* acceleration held over the step, R T N
  LET u == IF Eq(r.ctrl[j][3], 1) THEN VScale(AccelSigned(r, j), DirOf(r.ctrl[j][1], r.ctrl[j][2])) ELSE <<N(0), N(0), N(0)>>
  IN IF r.ptrb = <<>> THEN u ELSE VAdd(u, r.ptrb[j])
From(r, j) == Tup([i \in 1..6 |-> N(r.states[j][i])])
Carried(r, j, x, acc) ==
  LET h == Sub(r.times[j+1], r.times[j])
      held == Sens(r.et, x, r.mu)
      F(t, y) == RateHeld(r.et, y, r.mu, acc, held)
  IN IF r.integ = "rk4" THEN RK4Step(F, N(r.times[j]), h, x) ELSE RKF45Step(F, N(r.times[j]), h, x).y
Propagated(r, j) == Carried(r, j, From(r, j), Applied(r, j))
\* how far rounding can carry a step (a near-circular orbit can turn its anomaly by
\* hundreds of radians between the stages): the effect of a rounding of state and acceleration
Unsure(r, j) ==
  LET x == Propagated(r, j)
      acc == Applied(r, j)
      a == Carried(r, j, From(r, j), VScale("1.000000000001", acc))
      b == Carried(r, j, [From(r, j) EXCEPT ![6] = Add(@, Mul("1e-14", Add(1, Abs(@))))], acc)
      c == Carried(r, j, [From(r, j) EXCEPT ![2] = Add(@, Mul("1e-15", Add(1, Abs(@))))], acc)
  IN Tup([i \in 1..6 |-> Mul(5, Add(Abs(Sub(a[i], x[i])), Add(Abs(Sub(b[i], x[i])), Abs(Sub(c[i], x[i])))))])
Clamp(r, x) == Tup([i \in 1..6 |-> IF i = 6 THEN x[6] ELSE Min2(Max2(x[i], r.oemin[i]), r.oemax[i])])
\* recorded states are the clamped ones, except the last, which is recorded as propagated
Expected(r, j) == LET x == Propagated(r, j) IN IF r.et = "keplerian" /\ j < Len(r.ctrl) THEN Clamp(r, x) ELSE x
AtBound(r, x, i) == Eq(x[i], r.oemin[i]) \/ Eq(x[i], r.oemax[i])
PropJudge(r, j) ==
  LET x == Expected(r, j)
      y == r.states[j+1]
      dx == [i \in 1..6 |-> Abs(Sub(x[i], r.states[j][i]))]
      ok(i) == Le(Abs(Sub(x[i], y[i])), Add(Mul("1e-9", dx[i]), Add(Mul("2e-14", Add(1, Abs(x[i]))),
                    IF i = 6 THEN "1e-11" ELSE Mul("1e-9", Mul(VNorm(Applied(r, j)), Abs(Sub(r.times[j+1], r.times[j])))))))
      off == {i \in 1..6 : ~ok(i)}
      bad == IF off = {} THEN {} ELSE LET un == Unsure(r, j) IN {i \in off : FinV(un) /\ ~Le(Abs(Sub(x[i], y[i])), un[i])}
  IN IF ~FinV(x) THEN {}
     ELSE IF bad = {} THEN {}
     ELSE LET i0 == CHOOSE i \in bad : TRUE
              clamp == Lt(r.states[j+1][i0], r.oemin[i0]) \/ Gt(r.states[j+1][i0], r.oemax[i0]) \/ AtBound(r, x, i0) \/ AtBound(r, y, i0)
          IN {<<j, tag, "step", "element " \o ToString(CHOOSE i \in bad : TRUE) \o " is " \o y[CHOOSE i \in bad : TRUE]
              \o " expected " \o Str(x[CHOOSE i \in bad : TRUE])>> : tag \in {"C11"} \union (IF ~FinV(y) /\ ~IsFin(r.dQ[j]) THEN {"C20"} ELSE {}) \union (IF i0 <= 5 /\ clamp THEN {"C17"} ELSE {})}

\* ---- C17 ---------------------------------------------------------------------
ClampJudge(r, j) ==
  IF r.et # "keplerian" THEN {}
  ELSE {<<j, "C17", "bounds", "a step starts outside the element bounds, element " \o ToString(i)>> :
           i \in {i \in 1..5 : Lt(r.states[j][i], r.oemin[i]) \/ Gt(r.states[j][i], r.oemax[i])}}

\* ---- one step ----------------------------------------------------------------
Enabled(r, j) == IsFin(r.bounds[j][1]) \/ IsFin(r.bounds[j][2])
Undefined(r, j) == ~IsFin(r.dQ[j])
Judge(r, j) ==
  LET y == Lyapunov(r, j)
      sharp == Sharp(r, j, y)
  IN [v |-> ClampJudge(r, j) \union PropJudge(r, j)
            \union (IF IsFin(y.q) /\ Lt(y.q, "1e100") THEN ValueJudge(r, j, y) ELSE {})
            \union (IF sharp /\ Enabled(r, j) THEN SteerJudge(r, j, y) \union EffJudge(r, j, y) ELSE {})
            \union (IF sharp /\ Undefined(r, j)
                    THEN {<<j, t, "undefined", "steering is undefined although the quotient has a gradient">> : t \in {"C10", "C20"}} ELSE {}),
      n |-> [steer |-> sharp /\ Enabled(r, j), eff |-> sharp /\ Enabled(r, j) /\ (Gt(r.bounds[j][1], 0) \/ Gt(r.bounds[j][2], 0)),
             thrust |-> Eq(r.ctrl[j][3], 1), ptrb |-> r.ptrb # <<>>,
             clamped |-> r.et = "keplerian" /\ \E i \in 1..5 : Eq(r.states[j][i], r.oemin[i]) \/ Eq(r.states[j][i], r.oemax[i])]]
Report == l > 0 => LET q == Judge(Traces[tr], l) IN PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, j |-> l, v |-> q.v, n |-> q.n]))
=============================================================================
