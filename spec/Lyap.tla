--------------------------------- MODULE Lyap ---------------------------------
(***************************************************************************)
(* The proximity quotient Q and its steepest descent.                      *)
(*   Q = (1 + wp exp(k (1 - rp/rpmin))) sum_j w_j S_j (d_j / xdot_j)^2     *)
(* d_j: distance to target; xdot_j: largest rate of element j over the     *)
(* osculating orbit under acceleration f (Petropoulos); S_1 keeps the      *)
(* semimajor axis from running away.                                       *)
(* par: rpmin m n r b k wp                                                 *)
(***************************************************************************)
EXTENDS Rates

SA(a, aT, par) == Pow(Add(1, Pow(Div(Abs(Sub(a, aT)), Mul(par.m, aT)), par.n)), Inv(par.r))
Penalty(rp, par) == Add(1, Mul(par.wp, Exp(Mul(par.k, Sub(1, Div(rp, par.rpmin))))))
CubeRoot(x) == IF Eq(x, 0) THEN N(0) ELSE Exp(Div(Ln(x), 3))

MaxRatesKep(x, mu, f, par) ==
  LET a == N(x[1])  e == N(x[2])
      ci == Cos(x[3])  si == Sin(x[3])
      co == Cos(x[5])  so == Sin(x[5])
      e2 == Sq(e)
      p == Mul(a, Sub(1, e2))
      h == Sqrt(Mul(mu, p))
      pf == Mul(p, f)
      adot == Mul(Mul(2, f), Sqrt(Div(Mul(Cube(a), Add(1, e)), Mul(mu, Sub(1, e)))))
      edot == Div(Mul(2, pf), h)
      idot == Div(pf, Mul(h, Sub(Sqrt(Sub(1, Mul(e2, Sq(so)))), Mul(e, Abs(co)))))
      rdot == Div(pf, Mul(Mul(h, si), Sub(Sqrt(Sub(1, Mul(e2, Sq(co)))), Mul(e, Abs(so)))))
      q == Div(Sub(1, e2), Mul(2, Cube(e)))
      root == Sqrt(Add(Sq(q), Div(1, 27)))
      \* (root - q) = (1/27) / (root + q): no cancellation
      cx == Sub(Sub(CubeRoot(Add(root, q)), CubeRoot(Div(Div(1, 27), Add(root, q)))), Inv(e))
      rx == Div(p, Add(1, Mul(e, cx)))
      wi == Mul(Div(f, Mul(e, h)), Sqrt(Add(Mul(Sq(p), Sq(cx)), Mul(Sq(Add(p, rx)), Sub(1, Sq(cx))))))
      wo == Mul(rdot, Abs(ci))
      wdot == Div(Add(wi, Mul(par.b, wo)), Add(1, par.b))
  IN <<adot, edot, idot, rdot, wdot>>

MaxRatesMeea(x, mu, f) ==
  LET a == N(x[1])  ff == N(x[2])  g == N(x[3])
      e2 == Add(Sq(ff), Sq(g))
      e == Sqrt(e2)
      p == Mul(a, Sub(1, e2))
      q == Sqrt(Div(p, mu))
      s2 == Add(1, Add(Sq(x[4]), Sq(x[5])))
      adot == Mul(Mul(2, f), Mul(a, Sqrt(Div(Mul(a, Add(1, e)), Mul(mu, Sub(1, e))))))
      fdot == Mul(2, Mul(f, q))
  IN <<adot, fdot, fdot,
       Div(Mul(Div(f, 2), Mul(q, s2)), Add(Sqrt(Sub(1, Sq(g))), ff)),
       Div(Mul(Div(f, 2), Mul(q, s2)), Add(Sqrt(Sub(1, Sq(ff))), g))>>

MaxRates(et, x, mu, f, par) == IF et = "keplerian" THEN MaxRatesKep(x, mu, f, par) ELSE MaxRatesMeea(x, mu, f)
Dist(et, x, xT) == Tup([j \in 1..5 |-> LET d == Sub(x[j], xT[j]) IN IF et = "keplerian" /\ j \in {4, 5} THEN Wrap(d) ELSE d])

QFun(et, x, xT, w, mu, f, par) ==
  LET xd == MaxRates(et, x, mu, f, par)
      d == Dist(et, x, xT)
      rp == Mul(x[1], Sub(1, EccOf(et, x)))
      term(j) == IF Eq(w[j], 0) THEN N(0)
                 ELSE Mul(w[j], Mul(IF j = 1 THEN SA(N(x[1]), N(xT[1]), par) ELSE N(1), Sq(Div(d[j], xd[j]))))
  IN Mul(Penalty(rp, par), Sum([j \in 1..5 |-> term(j)]))

\* the quotient has kinks, where no gradient exists: absolute values in the maximal rates of the Keplerian angles (each
\* matters only if a weighted term uses it), and the equinoctial set at zero eccentricity
Kink(et, x, w, par) ==
  IF et = "keplerian"
  THEN LET om == ~Eq(w[5], 0) /\ ~Eq(par.b, 0)
       IN \/ Lt(Abs(Cos(x[5])), "1e-9") /\ ~Eq(w[3], 0)
          \/ Lt(Abs(Sin(x[5])), "1e-9") /\ (~Eq(w[4], 0) \/ om)
          \/ Lt(Abs(Cos(x[3])), "1e-9") /\ om
  ELSE Eq(x[2], 0) /\ Eq(x[3], 0)

\* gradient over the five slow elements by central differences (38 digits: error ~1e-22)
DStep == N("1e-10")
Bump(x, j, s) == [x EXCEPT ![j] = Add(@, s)]
GradQ(et, x, xT, w, mu, f, par) ==
  LET y == Tup([j \in 1..6 |-> N(x[j])])
  IN Tup([j \in 1..5 |-> Div(Sub(QFun(et, Bump(y, j, DStep), xT, w, mu, f, par), QFun(et, Bump(y, j, Negate(DStep)), xT, w, mu, f, par)),
                         Mul(2, DStep))])
\* gradient in thrust space: dQ/dt per unit acceleration along R, T, N
ThrustGrad(et, x, mu, grad) ==
  LET m == Sens(et, x, mu)
  IN Tup([c \in 1..3 |-> Sum([j \in 1..5 |-> Mul(m[j][c], grad[j])])])
Descent(g) == VScale(Negate(Inv(VNorm(g))), g)
Angles(u) == [alpha |-> Atan2(u[1], u[2]), beta |-> Atan2(u[3], Sqrt(Add(Sq(u[1]), Sq(u[2]))))]
DirOf(alpha, beta) == <<Mul(Cos(beta), Sin(alpha)), Mul(Cos(beta), Cos(alpha)), Sin(beta)>>
=============================================================================
