-------------------------------- MODULE Rates --------------------------------
(***************************************************************************)
(* Effect of acceleration on the elements.                                 *)
(* Sens(et, x, mu)[j][c]: rate of element j under unit acceleration along  *)
(* R, T, N (c = 1, 2, 3), the Gauss equations; Drift: rate of the anomaly  *)
(* or longitude without acceleration.                                      *)
(* NewtonRate derives the same rates from Newtonian motion alone (the      *)
(* definition the Gauss equations are checked against in OrbitLaws):       *)
(* x(s) is chosen so that ToSV moves with velocity v and acceleration      *)
(* -mu r/|r|^3 + acc.                                                      *)
(***************************************************************************)
EXTENDS Orbit

Z0 == N(0)
SensKep(x, mu) ==
  LET a == N(x[1])  e == N(x[2])
      ci == Cos(x[3])  si == Sin(x[3])
      ct == Cos(x[6])  st == Sin(x[6])
      u == Add(x[5], x[6])
      p == Mul(a, Sub(1, Sq(e)))
      h == Sqrt(Mul(mu, p))
      r == Div(p, Add(1, Mul(e, ct)))
      pr == Add(p, r)
      eh == Mul(e, h)
  IN << <<Div(Mul(2, Mul(Sq(a), Mul(e, st))), h), Div(Mul(2, Mul(Sq(a), p)), Mul(h, r)), Z0>>,
        <<Div(Mul(p, st), h), Div(Add(Mul(pr, ct), Mul(r, e)), h), Z0>>,
        <<Z0, Z0, Div(Mul(r, Cos(u)), h)>>,
        <<Z0, Z0, Div(Mul(r, Sin(u)), Mul(h, si))>>,
        <<Negate(Div(Mul(p, ct), eh)), Div(Mul(pr, st), eh), Negate(Div(Mul(r, Mul(Sin(u), ci)), Mul(h, si)))>>,
        <<Div(Mul(p, ct), eh), Negate(Div(Mul(pr, st), eh)), Z0>> >>

\* rows f g h k L are common to both equinoctial sets
SensMeeRows(p, x, mu) ==
  LET f == N(x[2])  g == N(x[3])  h == N(x[4])  k == N(x[5])
      cL == Cos(x[6])  sL == Sin(x[6])
      w == Add(1, Add(Mul(f, cL), Mul(g, sL)))
      s2 == Add(1, Add(Sq(h), Sq(k)))
      q == Sqrt(Div(p, mu))
      qw == Div(q, w)
      x3 == Sub(Mul(h, sL), Mul(k, cL))
      w1 == Add(w, 1)
  IN << <<Mul(q, sL), Mul(qw, Add(Mul(w1, cL), f)), Negate(Mul(qw, Mul(g, x3)))>>,
        <<Negate(Mul(q, cL)), Mul(qw, Add(Mul(w1, sL), g)), Mul(qw, Mul(f, x3))>>,
        <<Z0, Z0, Mul(qw, Mul(Div(s2, 2), cL))>>,
        <<Z0, Z0, Mul(qw, Mul(Div(s2, 2), sL))>>,
        <<Z0, Z0, Mul(qw, x3)>> >>
WOf(x) == Add(1, Add(Mul(x[2], Cos(x[6])), Mul(x[3], Sin(x[6]))))
SensMee(x, mu) ==
  LET p == N(x[1])
  IN << <<Z0, Div(Mul(Mul(2, p), Sqrt(Div(p, mu))), WOf(x)), Z0>> >> \o SensMeeRows(p, x, mu)
SensMeea(x, mu) ==
  LET a == N(x[1])  f == N(x[2])  g == N(x[3])
      p == Mul(a, Sub(1, Add(Sq(f), Sq(g))))
      hh == Sqrt(Mul(mu, p))
      cL == Cos(x[6])  sL == Sin(x[6])
      c == Div(Mul(2, Sq(a)), hh)
  IN << <<Mul(c, Sub(Mul(f, sL), Mul(g, cL))), Mul(c, WOf(x)), Z0>> >> \o SensMeeRows(p, x, mu)

Sens(et, x, mu) == CASE et = "keplerian"  -> SensKep(x, mu)
                     [] et = "mee_with_a" -> SensMeea(x, mu)
                     [] et = "mee"        -> SensMee(x, mu)

POf(et, x) == CASE et = "keplerian"  -> Mul(x[1], Sub(1, Sq(x[2])))
                [] et = "mee_with_a" -> Mul(x[1], Sub(1, Add(Sq(x[2]), Sq(x[3]))))
                [] et = "mee"        -> N(x[1])
Drift(et, x, mu) ==
  LET p == POf(et, x)
      w == IF et = "keplerian" THEN Add(1, Mul(x[2], Cos(x[6]))) ELSE WOf(x)
  IN Mul(Sqrt(Mul(mu, p)), Sq(Div(w, p)))

\* full rate of the six elements under acceleration acc (R, T, N)
Rate(et, x, mu, acc) ==
  LET m == Sens(et, x, mu)
  IN Tup([j \in 1..6 |-> LET d == Dot(m[j], acc) IN IF j = 6 THEN Add(d, Drift(et, x, mu)) ELSE d])

\* rate with the sensitivities of the five slow elements given (held over a step)
RateHeld(et, x, mu, acc, held) ==
  LET m == Sens(et, x, mu)
  IN Tup([j \in 1..6 |-> IF j = 6 THEN Add(Dot(m[6], acc), Drift(et, x, mu)) ELSE Dot(held[j], acc)])

\* ---- Newton ------------------------------------------------------------------
\* d/ds of ToSV(x + s rate) at s = 0 by central differences: must be <<v, -mu r/r^3 + acc>>
Pushed(et, x, mu, rate) ==
  LET st == Div("1e-12", Add(VNorm(rate), "1e-6"))
      sp == ToSV(et, VAdd(x, VScale(st, rate)), mu)
      sm == ToSV(et, VSub(x, VScale(st, rate)), mu)
  IN VScale(Inv(Mul(2, st)), VSub(sp, sm))
Newton(s, mu, acc) ==
  LET r == Pos(s)
      f == RTN(s)
      aI == VAdd(VScale(acc[1], f[1]), VAdd(VScale(acc[2], f[2]), VScale(acc[3], f[3])))
  IN Vel(s) \o VAdd(VScale(Negate(Div(mu, Cube(VNorm(r)))), r), aI)
\* a rate of change of the elements is right iff it moves the orbit as Newton does
RateIsNewton(et, x, mu, acc, rate, tol) ==
  LET d == Pushed(et, x, mu, rate)
      nt == Newton(ToSV(et, x, mu), mu, acc)
  IN \A j \in 1..6 : IsFin(rate[j]) /\
     Le(VNorm(VSub(Pos(d), Pos(nt))), Mul(tol, VNorm(Pos(nt)))) /\
     Le(VNorm(VSub(Vel(d), Vel(nt))), Mul(tol, VNorm(Vel(nt))))
=============================================================================
