------------------------------- MODULE Perturb -------------------------------
(***************************************************************************)
(* Physical models of the perturbing accelerations.                        *)
(***************************************************************************)
EXTENDS Orbit

\* third body at s with parameter gm, acting on the difference of attractions on spacecraft (at r) and centre
ThirdBody(r, s, gm) ==
  LET d == VSub(s, r)
  IN VScale(gm, VSub(VScale(Inv(Cube(VNorm(d))), d), VScale(Inv(Cube(VNorm(s))), s)))

\* oblateness: gradient of the potential, for a body with this pole (unit vector)
ObPotential(r, pole, mu, j2, re) ==
  LET rr == VNorm(r)
      s == Div(Dot(r, pole), rr)
  IN Negate(Mul(Div(Mul(mu, Mul(j2, Sq(re))), Mul(2, Cube(rr))), Sub(Mul(3, Sq(s)), 1)))
Oblate(r, pole, mu, j2, re) ==
  LET st == Mul("1e-11", VNorm(r))
      x == Tup([i \in 1..3 |-> N(r[i])])
      U(y) == ObPotential(y, pole, mu, j2, re)
  IN Tup([i \in 1..3 |-> Div(Sub(U([x EXCEPT ![i] = Add(@, st)]), U([x EXCEPT ![i] = Sub(@, st)])), Mul(2, st))])

\* solar pressure: away from the Sun, falling with the square of the distance, k at distance au
Pressure(d, au, k) == VScale(Div(Mul(k, Sq(au)), Cube(VNorm(d))), d)

\* ---- an environment of bodies moving linearly, and a pole drifting linearly ------------
Deg(x) == Div(Mul(x, Pi), 180)
At(b, et) == Tup([i \in 1..3 |-> Add(b.p[i], Mul(b.v[i], et))])
\* J2000 -> the frame of the elements
Obliquity == Deg(Div("84381.448", 3600))
ToFrame(frame, v) ==
  IF frame = "J2000" THEN v
  ELSE LET c == Cos(Obliquity)  s == Sin(Obliquity)
       IN <<N(v[1]), Add(Mul(c, v[2]), Mul(s, v[3])), Sub(Mul(c, v[3]), Mul(s, v[2]))>>
PoleAt(pole, et) ==
  LET T == Div(et, "3155760000")
      ra == Deg(Add(pole.ra[1], Mul(pole.ra[2], T)))
      de == Deg(Add(pole.dec[1], Mul(pole.dec[2], T)))
  IN <<Mul(Cos(de), Cos(ra)), Mul(Cos(de), Sin(ra)), Sin(de)>>
=============================================================================
