------------------------------ MODULE OrbitLaws ------------------------------
(***************************************************************************)
(* The laws the orbit specification itself must satisfy, checked by TLC    *)
(* over every regime of the grid below (angles in all quadrants, beyond a  *)
(* turn and negative; prograde, retrograde; near-circular to 0.9; three    *)
(* gravitational parameters).  One state per regime.                       *)
(***************************************************************************)
EXTENDS Lyap, RK, TLC

CONSTANT Fine

Angs == IF Fine THEN {"0.3", "1.2", "2.4", "3.9", "5.5", "-0.8", "-2.2", "7.1"} ELSE {"0.3", "2.4", "3.9", "-0.8"}
Eccs == {"0.02", "0.45", "0.9"}
Incs == {"0.2", "1.3", "2.7"}
Mus  == {"1", "3.986e5", "0.2"}

VARIABLE k
Init == k \in [a : {"0.7", "12.5"}, e : Eccs, i : Incs, O : {"-"}, w : {"-"}, t : {"-"}, mu : Mus]
Next == /\ k.O = "-"
        /\ \E O \in Angs, w \in Angs, t \in Angs : k' = [k EXCEPT !.O = O, !.w = w, !.t = t]
Spec == Init /\ [][Next]_k
Ready == k.O # "-"

Kep == <<k.a, k.e, k.i, k.O, k.w, k.t>>
Mee == LET th == Tan(Div(k.i, 2))
       IN <<Mul(k.a, Sub(1, Sq(k.e))), Mul(k.e, Cos(Add(k.O, k.w))), Mul(k.e, Sin(Add(k.O, k.w))),
            Mul(th, Cos(k.O)), Mul(th, Sin(k.O)), Add(k.O, Add(k.w, k.t))>>
Meea == <<N(k.a)>> \o SubSeq(Mee, 2, 6)
SV == KepToSV(Kep, k.mu)
Tiny == "1e-28"
\* the three element sets describe the same state
SameOrbit == Ready => SVClose(MeeToSV(Mee, k.mu), SV, Tiny) /\ SVClose(MeeaToSV(Meea, k.mu), SV, Tiny)
\* the state has the energy, angular momentum, eccentricity and inclination of the elements
Invariants == Ready => /\ Close(SMA(SV, k.mu), k.a, Tiny, 0)
              /\ Close(Ecc(SV, k.mu), k.e, "1e-24", 0)
              /\ AngClose(Incl(SV), k.i, Tiny)
              /\ Close(VNorm(AngMom(SV)), Sqrt(Mul(k.mu, Mee[1])), Tiny, 0)
\* anomalies: r = a (1 - e cos E), Kepler's equation under a small advance
AnomalyLaw == Ready => /\ Close(VNorm(Pos(SV)), Mul(k.a, Sub(1, Mul(k.e, CosE(k.e, k.t)))), Tiny, 0)
              /\ Close(Add(Sq(CosE(k.e, k.t)), Sq(SinE(k.e, k.t))), 1, Tiny, 0)
\* Gauss equations are Newton's law: thrust in an oblique direction, and none
Acc == <<"0.013", "-0.021", "0.034">>
RatesLaw == Ready => \A et \in {"keplerian", "mee", "mee_with_a"} :
               LET x == CASE et = "keplerian" -> Kep [] et = "mee" -> Mee [] et = "mee_with_a" -> Meea
               IN RateIsNewton(et, x, k.mu, Acc, Rate(et, x, k.mu, Acc), "1e-15")
\* the steepest descent: Q falls along it at |gradient|, along no axis faster
Par == [rpmin |-> "0.1", m |-> "3", n |-> "4", r |-> "2", b |-> "0.01", k |-> "1", wp |-> "1"]
DescentLaw == Ready /\ k.mu = "1" =>
  LET f == N("1e-3")
      xT == <<"1.3", "0.3", "0.8", "1.1", "0.4">>
      w == <<1, 1, 1, 1, 1>>
      g == GradQ("keplerian", Kep, xT, w, k.mu, f, Par)
      tg == ThrustGrad("keplerian", Kep, k.mu, g)
      u == Descent(tg)
      a == Angles(u)
      slope(d) == Dot(g, SubSeq(VSub(Rate("keplerian", Kep, k.mu, d), Rate("keplerian", Kep, k.mu, <<0, 0, 0>>)), 1, 5))
  IN /\ Close(slope(u), Negate(VNorm(tg)), "1e-24", 0)
     /\ VClose(DirOf(a.alpha, a.beta), u, Tiny, Tiny)
     /\ \A d \in {<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>, <<-1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>} : Ge(Mul(slope(d), "1.000000001"), slope(u))
\* each maximal rate bounds the rate of its element, and is reached (a, e, i, raan exactly; sampled on the orbit)
MaxRateLaw == Ready /\ k.O = "0.3" =>
  LET mx == MaxRates("keplerian", Kep, k.mu, 1, Par)
      at(t) == SensKep([Kep EXCEPT ![6] = t], k.mu)
  IN \A t \in {"0.1", "1", "2", "3", "4", "5", "6"} : \A j \in 1..4 : Le(VNorm(at(t)[j]), Mul(mx[j], "1.0000000001"))
\* Runge-Kutta: order four (y' = t^3 exactly; error of y' = y falls with h^5)
F3(t, y) == <<Cube(t)>>
FE(t, y) == <<y[1]>>
Err(s) == Abs(Sub(s[1], Exp("0.1")))
RKLaw == Ready /\ k.mu = "1" /\ k.O = "0.3" => /\ Close(RK4Step(F3, N(k.t), N("0.5"), <<N(0)>>)[1], Div(Sub(IPow(Add(k.t, "0.5"), 4), IPow(k.t, 4)), 4), Tiny, Tiny)
         /\ Close(RKF45Step(F3, N(k.t), N("0.5"), <<N(0)>>).y[1], Div(Sub(IPow(Add(k.t, "0.5"), 4), IPow(k.t, 4)), 4), Tiny, Tiny)
         /\ Close(RKF45Step(F3, N(k.t), N("0.5"), <<N(0)>>).z[1], Div(Sub(IPow(Add(k.t, "0.5"), 4), IPow(k.t, 4)), 4), Tiny, Tiny)
         /\ Lt(Err(RK4Step(FE, N(0), N("0.1"), <<N(1)>>)), "9e-8")
         /\ Lt(Err(RKF45Step(FE, N(0), N("0.1"), <<N(1)>>).y), "9e-8")
         /\ Lt(Err(RKF45Step(FE, N(0), N("0.1"), <<N(1)>>).z), "2e-9")
=============================================================================
