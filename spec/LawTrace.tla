------------------------------- MODULE LawTrace -------------------------------
(***************************************************************************)
(* C10 at single states: the feedback law's raw vector, quotient, gradient,*)
(* angles and rate against the steepest descent of the quotient.           *)
(***************************************************************************)
EXTENDS Lyap, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

FinV(s) == \A j \in DOMAIN s : IsFin(s[j])
Judge(r) ==
  LET x == Tup([j \in 1..6 |-> N(r.x[j])])
      g == GradQ(r.et, x, r.oeT, r.woe, r.mu, r.f, r.par)
      m == Sens(r.et, x, r.mu)
      tg == ThrustGrad(r.et, x, r.mu, g)
      nrm == VNorm(tg)
      big == Sqrt(Sum([c \in 1..3 |-> Sq(Sum([k \in 1..5 |-> Abs(Mul(m[k][c], g[k]))]))]))
      q == QFun(r.et, x, r.oeT, r.woe, r.mu, r.f, r.par)
      sharp == ~Kink(r.et, x, r.woe, r.par) /\ IsFin(q) /\ FinV(g) /\ IsFin(nrm)
               /\ Gt(nrm, Mul("1e-5", big)) /\ Gt(nrm, "1e-60") /\ Lt(nrm, "1e60") /\ Gt(q, "1e-60") /\ Lt(q, "1e100")
      tol == Add("1e-8", Mul("1e-9", Div(big, nrm)))
      d == DirOf(r.alpha, r.beta)
      ae == Mul(r.f, nrm)
      bad(c, t) == {<<0, "C10", c, t>>}
      val(name) == IF ~Close(r[name], q, "1e-9", 0) THEN bad("value", name \o " is " \o r[name] \o " expected " \o Str(q)) ELSE {}
      \* a gradient component matters as much as it can move the quotient along any axis
      gradOf(name) == IF r[name] = <<>> THEN {}
                      ELSE {<<j, "C10", "gradient", name \o ": slope along element " \o ToString(j) \o " is " \o r[name][j] \o " expected " \o Str(g[j])>> :
                              j \in {j \in 1..5 : ~Le(Mul(Abs(Sub(r[name][j], g[j])), VNorm(m[j])), Mul("1e-7", Add(Mul(Abs(g[j]), VNorm(m[j])), Mul("1e-2", big))))}}
  IN [v |-> {<<0, "C10", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
        \union (IF ~sharp THEN {} ELSE
           val("q") \union val("q2") \union gradOf("dq") \union gradOf("dq2")
           \union (IF Len(r.u) = 3 /\ Le(VNorm(VSub(r.u, tg)), Mul(tol, nrm)) THEN {} ELSE bad("vector", "raw vector " \o ToString(r.u)
                      \o " expected " \o ToString([c \in 1..3 |-> Str(tg[c])])))
           \union (IF Le(VNorm(VSub(d, Descent(tg))), tol) THEN {} ELSE bad("direction", "direction is not the steepest descent: off by "
                      \o Str(VNorm(VSub(d, Descent(tg))))))
           \union (IF Close(Abs(r.dqdt), ae, tol, 0) THEN {} ELSE bad("rate", "rate " \o r.dqdt \o " expected " \o Str(ae)))
           \union (IF Close(Abs(r.dqdt2), ae, tol, 0) THEN {} ELSE bad("rate", "rate function " \o r.dqdt2 \o " expected " \o Str(ae)))
           \union (IF Eq(Sgn(r.dqdt), Sgn(r.dqdt2)) THEN {} ELSE bad("rate", "the two rates differ in sign"))),
      n |-> [sharp |-> IF sharp THEN 1 ELSE 0]]
Report == l = 1 => LET q == Judge(Traces[tr]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, v |-> q.v, n |-> q.n]))
=============================================================================
