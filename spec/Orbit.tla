-------------------------------- MODULE Orbit --------------------------------
(***************************************************************************)
(* Bounded Kepler orbits: classical elements (a e i raan aop ta), modified *)
(* equinoctial elements (p f g h k L), their semimajor-axis variant        *)
(* (a f g h k L), and the Cartesian state (position, velocity).            *)
(* Every conversion goes straight to the Cartesian state, so conversions   *)
(* of the code are judged by the orbit they describe.                      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

\* ---- to Cartesian ----------------------------------------------------------
KepToSV(k, mu) ==
  LET a == N(k[1])
      e == N(k[2])
      ci == Cos(k[3])   si == Sin(k[3])
      cO == Cos(k[4])   sO == Sin(k[4])
      u  == Add(k[5], k[6])
      cu == Cos(u)      su == Sin(u)
      cw == Cos(k[5])   sw == Sin(k[5])
      p  == Mul(a, Sub(1, Sq(e)))
      r  == Div(p, Add(1, Mul(e, Cos(k[6]))))
      vs == Sqrt(Div(mu, p))
      \* unit vectors towards the node and, in the orbit plane, 90 degrees ahead of it
      n  == <<cO, sO, N(0)>>
      m  == <<Negate(Mul(sO, ci)), Mul(cO, ci), si>>
      rv == VScale(r, VAdd(VScale(cu, n), VScale(su, m)))
      vv == VScale(vs, VAdd(VScale(Negate(Add(su, Mul(e, sw))), n), VScale(Add(cu, Mul(e, cw)), m)))
  IN rv \o vv

MeeToSV(q, mu) ==
  LET p == N(q[1])  f == N(q[2])  g == N(q[3])  h == N(q[4])  k == N(q[5])
      cL == Cos(q[6])   sL == Sin(q[6])
      w  == Add(1, Add(Mul(f, cL), Mul(g, sL)))
      s2 == Add(1, Add(Sq(h), Sq(k)))
      r  == Div(p, w)
      \* equinoctial frame
      ef == <<Div(Sub(Add(1, Sq(h)), Sq(k)), s2), Div(Mul(2, Mul(h, k)), s2), Div(Mul(-2, k), s2)>>
      eg == <<Div(Mul(2, Mul(h, k)), s2), Div(Add(Sub(1, Sq(h)), Sq(k)), s2), Div(Mul(2, h), s2)>>
      vs == Sqrt(Div(mu, p))
  IN VScale(r, VAdd(VScale(cL, ef), VScale(sL, eg)))
     \o VScale(vs, VAdd(VScale(Negate(Add(sL, g)), ef), VScale(Add(cL, f), eg)))

MeeOfMeea(q) == <<Mul(q[1], Sub(1, Add(Sq(q[2]), Sq(q[3]))))>> \o SubSeq(q, 2, 6)
MeeaToSV(q, mu) == MeeToSV(MeeOfMeea(q), mu)

ToSV(et, x, mu) == CASE et = "keplerian"  -> KepToSV(x, mu)
                     [] et = "mee_with_a" -> MeeaToSV(x, mu)
                     [] et = "mee"        -> MeeToSV(x, mu)
                     [] et = "sv"         -> [j \in 1..6 |-> N(x[j])]

\* elements of the solver that describe a bounded orbit
Bound(et, x) == Gt(x[1], 0) /\ (IF et = "keplerian" THEN Lt(x[2], 1) ELSE Lt(Add(Sq(x[2]), Sq(x[3])), 1))

\* ---- quantities of a Cartesian state ----------------------------------------
Pos(s) == SubSeq(s, 1, 3)
Vel(s) == SubSeq(s, 4, 6)
AngMom(s) == Cross(Pos(s), Vel(s))
Energy(s, mu) == Sub(Div(Dot(Vel(s), Vel(s)), 2), Div(mu, VNorm(Pos(s))))
SMA(s, mu) == Div(Negate(mu), Mul(2, Energy(s, mu)))
EccVec(s, mu) == VSub(VScale(Inv(mu), Cross(Vel(s), AngMom(s))), VScale(Inv(VNorm(Pos(s))), Pos(s)))
Ecc(s, mu) == VNorm(EccVec(s, mu))
Incl(s) == LET h == AngMom(s) IN Atan2(Sqrt(Add(Sq(h[1]), Sq(h[2]))), h[3])
Period(s, mu) == LET a == SMA(s, mu) IN Mul(TwoPi, Sqrt(Div(Cube(a), mu)))
\* axes: towards position (R), along track (T), orbit normal (N)
RTN(s) == LET r == Pos(s)
              eR == VScale(Inv(VNorm(r)), r)
              h == AngMom(s)
              eN == VScale(Inv(VNorm(h)), h)
          IN <<eR, Cross(eN, eR), eN>>

\* same orbit, same point: position and velocity agree relative to their sizes
SVClose(s, t, tol) ==
  /\ \A j \in 1..6 : IsFin(s[j]) /\ IsFin(t[j])
  /\ Le(VNorm(VSub(Pos(s), Pos(t))), Mul(tol, VNorm(Pos(t))))
  /\ Le(VNorm(VSub(Vel(s), Vel(t))), Mul(tol, VNorm(Vel(t))))

\* ---- anomalies -----------------------------------------------------------------
EccOf(et, x) == IF et = "keplerian" THEN N(x[2]) ELSE Sqrt(Add(Sq(x[2]), Sq(x[3])))
TAOf(et, x)  == IF et = "keplerian" THEN N(x[6]) ELSE Sub(x[6], Atan2(x[3], x[2]))
CosE(e, ta) == LET c == Cos(ta) IN Div(Add(e, c), Add(1, Mul(e, c)))
SinE(e, ta) == Div(Mul(Sqrt(Sub(1, Sq(e))), Sin(ta)), Add(1, Mul(e, Cos(ta))))
EccAnom(e, ta) == Atan2(SinE(e, ta), CosE(e, ta))
MeanAnom(e, ta) == Sub(EccAnom(e, ta), Mul(e, SinE(e, ta)))

\* Keplerian time needed to advance the eccentric anomaly by dE
SundmanStep(et, x, mu, dE) ==
  LET e == EccOf(et, x)
      ta == TAOf(et, x)
      sE == SinE(e, ta)
      cE == CosE(e, ta)
      \* sin(E + dE) - sin E
      ds == Sub(Add(Mul(sE, Cos(dE)), Mul(cE, Sin(dE))), sE)
  IN Mul(Sub(dE, Mul(e, ds)), Sqrt(Div(Cube(x[1]), mu)))
=============================================================================
