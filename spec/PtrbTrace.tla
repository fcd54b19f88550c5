------------------------------ MODULE PtrbTrace ------------------------------
(***************************************************************************)
(* C15: recorded perturbing accelerations against module Perturb.          *)
(***************************************************************************)
EXTENDS Perturb, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

Near(out, want, tol) == Len(out) = 3 /\ \A i \in 1..3 : IsFin(out[i]) /\ Le(Abs(Sub(out[i], want[i])), tol)
Bad(c, clause, text) == {<<c, "C15", clause, text>>}
Txt(v) == ToString([i \in DOMAIN v |-> Str(v[i])])

ThirdJudge(r, j) ==
  LET c == r.calls[j]
      want == ThirdBody(c.r, c.s, c.gm)
      d == VNorm(VSub(c.r, c.s))
      \* position differences lose digits when the spacecraft is close to the body, or far outside its distance
      tol == Mul(VNorm(want), Add("1e-12", Mul("1e-14", Div(Add(VNorm(c.r), VNorm(c.s)), Min2(d, VNorm(c.s))))))
  IN IF c.out # <<>> /\ ~Near(c.out[1], want, Mul(10, tol)) THEN Bad(j, "third", "third-body acceleration " \o ToString(c.out[1]) \o " expected " \o Txt(want)) ELSE {}
J2Judge(r, j) ==
  LET c == r.calls[j]
      want == Oblate(c.r, c.pole, c.mu, c.j2, c.re)
  IN IF c.out # <<>> /\ ~Near(c.out[1], want, Mul("1e-11", VNorm(want))) THEN Bad(j, "oblateness", "J2 acceleration " \o ToString(c.out[1]) \o " expected " \o Txt(want)) ELSE {}
SrpJudge(r, j) ==
  LET c == r.calls[j]
      want == Pressure(c.r, c.au, c.k)
  IN IF c.out # <<>> /\ ~Near(c.out[1], want, Mul("1e-12", VNorm(want))) THEN Bad(j, "pressure", "SRP acceleration " \o ToString(c.out[1]) \o " expected " \o Txt(want)) ELSE {}
RtnJudge(r, j) ==
  LET c == r.calls[j]
      f == RTN(c.r \o c.vel)
      \* the normal is ill-defined when position and velocity are nearly parallel
      sn == Div(VNorm(Cross(c.r, c.vel)), Mul(VNorm(c.r), VNorm(c.vel)))
      tol == Div("1e-14", Max2(sn, "1e-10"))
  IN IF c.out = <<>> THEN {}
     ELSE IF Len(c.out) # 3 THEN Bad(j, "frame", "three axes expected")
     ELSE UNION {IF Near(c.out[q], f[q], Mul(10, tol)) THEN {} ELSE Bad(j, "frame", "axis " \o ToString(q) \o " is " \o ToString(c.out[q]) \o " expected " \o Txt(f[q])) : q \in 1..3}

FullJudge(r, j) ==
  LET c == r.calls[j]
      lu == N(r.LU)
      muref == Div(Cube(lu), Sq(r.TU))
      mu == Div(r.gm, muref)
      s == ToSV(c.et, c.x, mu)
      x == Pos(s)
      et == Add(r.et0, Mul(c.t, r.TU))
      rel(b) == VScale(Inv(lu), ToFrame(r.frame, VSub(At(b, et), At(r.center, et))))
      third == [k \in DOMAIN r.bodies |-> ThirdBody(x, rel(r.bodies[k]), IF r.given THEN N(r.bodies[k].given) ELSE Div(r.bodies[k].gm, muref))]
      pole == ToFrame(r.frame, PoleAt(r.pole, et))
      ob == Oblate(x, pole, mu, r.opt.J2, Div(r.opt.Re_km, lu))
      ksrp == Div(Mul(r.opt.P_SRP_SI, Mul(r.opt.Cr_SRP, r.opt.Am_SI)), Mul(1000, Div(lu, Sq(r.TU))))
      sp == Pressure(VSub(x, rel(r.sun)), Div("149597870.7", lu), ksrp)
      terms == Tup(third \o (IF r.useJ2 THEN <<ob>> ELSE <<>>) \o (IF r.useSRP THEN <<sp>> ELSE <<>>))
      zero == <<N(0), N(0), N(0)>>
      RECURSIVE total(_)
      total(k) == IF k = 0 THEN zero ELSE VAdd(total(k - 1), terms[k])
      acc == total(Len(terms))
      f == RTN(s)
      want == Tup([q \in 1..3 |-> Dot(f[q], acc)])
      size == Sum([k \in 1..Len(terms) |-> VNorm(terms[k])])
      \* attraction of a distant body: only the difference is left
      far == Sum([k \in DOMAIN third |-> VNorm(third[k])])
      tol == Add(Mul("1e-8", Sub(size, far)), Mul("1e-9", far))
  IN IF c.out = <<>> THEN {}
     ELSE IF ~Near(c.out[1], want, tol)
     THEN Bad(j, "total", "perturbation " \o ToString(c.out[1]) \o " expected " \o Txt(want) \o " terms " \o ToString([k \in DOMAIN terms |-> Str(VNorm(terms[k]))]))
     ELSE {}

Judge(r) ==
  LET one(j) == CASE r.what = "third" -> ThirdJudge(r, j) [] r.what = "j2" -> J2Judge(r, j) [] r.what = "srp" -> SrpJudge(r, j)
                  [] r.what = "rtn" -> RtnJudge(r, j) [] r.what = "full" -> FullJudge(r, j)
  IN {<<0, "C15", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
     \union UNION {one(j) : j \in DOMAIN r.calls}
     \union (IF r.kept THEN {} ELSE {<<0, p, "kept", "an argument was modified">> : p \in {"C15", "C18"}})
Report == l = 1 => LET r == Traces[tr] IN PrintT("VERDICT " \o ToJson([id |-> r.id, v |-> Judge(r), n |-> (r.what :> Len(r.calls))]))
=============================================================================
