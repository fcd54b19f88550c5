------------------------------- MODULE RkTrace -------------------------------
(***************************************************************************)
(* C14: one integrator step of the code against module RK, for right-hand  *)
(* sides y_i' = c0_i + c1_i t + c2_i t^2 + sum_j A_ij y_j                  *)
(*              + q_i y_i y_(i+1) + s_i t y_i.                             *)
(***************************************************************************)
EXTENDS RK, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

F(r, t, y) == LET n == Len(y) IN
  Tup([i \in 1..n |-> Sum(<<r.c0[i], Mul(r.c1[i], t), Mul(r.c2[i], Sq(t)), Dot(r.A[i], y),
                           Mul(r.q[i], Mul(y[i], y[(i % n) + 1])), Mul(r.s[i], Mul(t, y[i]))>>)])
Judge(r) ==
  LET G(t, y) == F(r, t, y)
      y0 == Tup([i \in DOMAIN r.y |-> N(r.y[i])])
      fs == RKF45Step(G, N(r.t), N(r.h), y0)
      want == IF r.integ = "rk4" THEN RK4Step(G, N(r.t), N(r.h), y0) ELSE fs.y
      size == Add(1, Add(VNorm(y0), Add(VNorm(want), Abs(Mul(r.h, VNorm(G(N(r.t), y0)))))))
      err == VNorm(VSub(fs.z, fs.y))
      noise == Div(Mul("1e-13", size), Max2(err, "1e-300"))
      hw == Mul(r.h, Mul("0.84", Sqrt(Sqrt(Div(r.tol, err)))))
      out == r.errors = <<>>
  IN [v |-> {<<0, "C14", "crash", q[1] \o ": " \o q[2]>> : q \in {r.errors[k] : k \in DOMAIN r.errors}}
         \union (IF out /\ ~(Len(r.out) = Len(r.y) /\ VClose(r.out, want, 0, Mul("1e-12", size)))
                 THEN {<<0, "C14", "step", r.integ \o " gave " \o ToString(r.out) \o " expected " \o ToString([i \in DOMAIN want |-> Str(want[i])])>>} ELSE {})
         \union (IF out /\ r.integ # "rk4" /\ Lt(noise, "0.01") /\ ~Close(r.hnext, hw, Add("1e-8", noise), 0)
                 THEN {<<0, "C14", "next", "suggested step " \o r.hnext \o " expected " \o Str(hw)>>} ELSE {})
         \union (IF out /\ r.integ # "rk4" /\ Eq(err, 0) /\ (IsNan(r.hnext) \/ ~Gt(Mul(r.hnext, r.h), 0))
                 THEN {<<0, "C14", "exact", "suggested step " \o r.hnext \o " after an exact step">>} ELSE {})
         \union (IF r.kept THEN {} ELSE {<<0, p, "kept", "the state passed in was modified">> : p \in {"C14", "C18"}}),
      n |-> [exact |-> IF r.integ # "rk4" /\ Eq(err, 0) THEN 1 ELSE 0, next |-> IF r.integ # "rk4" /\ Lt(noise, "0.01") THEN 1 ELSE 0]]
Report == l = 1 => LET q == Judge(Traces[tr]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, v |-> q.v, n |-> q.n]))
=============================================================================
