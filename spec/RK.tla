---------------------------------- MODULE RK ----------------------------------
(***************************************************************************)
(* One explicit Runge-Kutta step of y' = F(t, y), for any operator F.      *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

Fr(a, b) == Div(a, b)
Axpy(y, h, cs, ks) ==    \* y + h * sum cs[j] ks[j]
  Tup([i \in DOMAIN y |-> Add(y[i], Mul(h, Sum([j \in DOMAIN cs |-> Mul(cs[j], ks[j][i])])))])

RK4Step(F(_, _), t, h, y) ==
  LET k1 == Tup(F(t, y))
      k2 == Tup(F(Add(t, Div(h, 2)), Axpy(y, h, <<Fr(1, 2)>>, <<k1>>)))
      k3 == Tup(F(Add(t, Div(h, 2)), Axpy(y, h, <<N(0), Fr(1, 2)>>, <<k1, k2>>)))
      k4 == Tup(F(Add(t, h), Axpy(y, h, <<N(0), N(0), N(1)>>, <<k1, k2, k3>>)))
  IN Axpy(y, h, <<Fr(1, 6), Fr(1, 3), Fr(1, 3), Fr(1, 6)>>, <<k1, k2, k3, k4>>)

\* Fehlberg 4(5): fourth-order result and the difference of the embedded pair
RKF45Step(F(_, _), t, h, y) ==
  LET k1 == Tup(F(t, y))
      k2 == Tup(F(Add(t, Mul(h, Fr(1, 4))), Axpy(y, h, <<Fr(1, 4)>>, <<k1>>)))
      k3 == Tup(F(Add(t, Mul(h, Fr(3, 8))), Axpy(y, h, <<Fr(3, 32), Fr(9, 32)>>, <<k1, k2>>)))
      k4 == Tup(F(Add(t, Mul(h, Fr(12, 13))), Axpy(y, h, <<Fr(1932, 2197), Fr(-7200, 2197), Fr(7296, 2197)>>, <<k1, k2, k3>>)))
      k5 == Tup(F(Add(t, h), Axpy(y, h, <<Fr(439, 216), N(-8), Fr(3680, 513), Fr(-845, 4104)>>, <<k1, k2, k3, k4>>)))
      k6 == Tup(F(Add(t, Mul(h, Fr(1, 2))), Axpy(y, h, <<Fr(-8, 27), N(2), Fr(-3544, 2565), Fr(1859, 4104), Fr(-11, 40)>>, <<k1, k2, k3, k4, k5>>)))
      ks == <<k1, k2, k3, k4, k5, k6>>
  IN [y |-> Axpy(y, h, <<Fr(25, 216), N(0), Fr(1408, 2565), Fr(2197, 4104), Fr(-1, 5), N(0)>>, ks),
      z |-> Axpy(y, h, <<Fr(16, 135), N(0), Fr(6656, 12825), Fr(28561, 56430), Fr(-9, 50), Fr(2, 55)>>, ks)]
=============================================================================
