------------------------------ MODULE ConvTrace ------------------------------
(***************************************************************************)
(* C12: chains of element conversions, extractors, anomalies and sampled   *)
(* orbits, judged by the Cartesian state they describe.                    *)
(***************************************************************************)
EXTENDS Orbit, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

Set(t) == CASE t = "kep" -> "keplerian" [] t = "meea" -> "mee_with_a" [] OTHER -> t
Fin6(x) == Len(x) = 6 /\ \A j \in 1..6 : IsFin(x[j])

\* what double precision can hold: near-parabolic orbits, tiny eccentricities and inclinations lose digits
Loss(e, si, viaSV) ==
  Add(Div("2e-13", Sq(Sub(1, e))),
      IF viaSV THEN Add(Add(Div("5e-15", Max2(e, "1e-8")), IF Le(e, "2e-8") THEN "5e-8" ELSE 0),
                        Div("1e-15", Max2(si, "2e-8"))) ELSE 0)
HopJudge(r, j) ==
  LET h == r.hops[j]
      s == ToSV(Set(h.src), h.in, r.mu)
      t == ToSV(Set(h.dst), h.out, r.mu)
      tol == Loss(Ecc(s, r.mu), Sin(Incl(s)), h.src = "sv")
  IN (IF ~Fin6(h.out) THEN {<<j, "C12", "finite", h.fn \o " gave a non-finite element">>}
      ELSE IF ~SVClose(t, s, tol)
      THEN {<<j, "C12", "orbit", h.fn \o " changed the orbit: position off by "
              \o Str(Div(VNorm(VSub(Pos(s), Pos(t))), VNorm(Pos(s)))) \o " tolerance " \o Str(tol)>>} ELSE {})
     \union (IF \A q \in DOMAIN h.in : Eq(h.in[q], h.kept[q]) THEN {}
             ELSE {<<j, p, "kept", h.fn \o " modified its argument">> : p \in {"C12", "C18"}})

Get(r, name) == r.get[name]
Has(r, name) == name \in DOMAIN r.get
GetJudge(r) ==
  LET s == [j \in 1..6 |-> N(r.sv[j])]
      e == N(r.kep[2])
      si == Sin(r.kep[3])
      base == Div("2e-13", Sq(Sub(1, e)))
      angI == Add("1e-12", Div("1e-15", Max2(si, "2e-8")))
      angE == Add(base, Div("5e-15", Max2(e, "1e-12")))
      wrong(name, want) == {<<0, "C12", name, name \o " gave " \o ToString(Get(r, name)) \o " expected " \o want>>}
      chk(name, ok, want) == IF Has(r, name) THEN (IF ok THEN {} ELSE wrong(name, want)) ELSE {}
      ea == EccAnom(e, r.kep[6])
      em == EccOf("mee_with_a", r.mee)
      eam == EccAnom(em, TAOf("mee_with_a", r.mee))
  IN chk("get_semiMajorAxis", Close(Get(r, "get_semiMajorAxis")[1], r.kep[1], base, 0), r.kep[1])
     \union chk("get_eccentricity", LET v == Get(r, "get_eccentricity") IN
                 IF Len(v) # 3 THEN FALSE ELSE Le(VNorm(VSub(v, EccVec(s, r.mu))), base), "the eccentricity vector")
     \union chk("get_inclination", AngClose(Get(r, "get_inclination")[1], r.kep[3], angI), r.kep[3])
     \union (IF Gt(si, "1e-7") THEN chk("get_raan", AngClose(Get(r, "get_raan")[1], r.kep[4], angI), r.kep[4]) ELSE {})
     \union (IF Gt(si, "1e-7") /\ Gt(e, "1e-6")
             THEN chk("get_omega", AngClose(Get(r, "get_omega")[1], r.kep[5], Add(angI, angE)), r.kep[5]) ELSE {})
     \union (IF Gt(e, "1e-6") THEN chk("get_trueanom", AngClose(Get(r, "get_trueanom")[1], r.kep[6], angE), r.kep[6]) ELSE {})
     \union chk("get_period", Close(Get(r, "get_period")[1], Mul(TwoPi, Sqrt(Div(Cube(r.kep[1]), r.mu))), Mul(2, base), 0), "the period")
     \union chk("ta2ea", AngClose(Get(r, "ta2ea")[1], ea, base), Str(ea))
     \union chk("mee2ea", Eq(em, 0) \/ AngClose(Get(r, "mee2ea")[1], eam, base), Str(eam))

\* the sampled orbit: on the orbit, closed, once around
OrbitJudge(r) ==
  LET n == Len(r.orbit)
      S == [j \in 1..n |-> [q \in 1..6 |-> N(r.orbit[j][q])]]
      k == r.kep
      ref == KepToSV(k, r.mu)
      hr == AngMom(ref)
      er == EccVec(ref, r.mu)
      base == Div("1e-12", Sq(Sub(1, k[2])))
      on(s) == /\ Le(VNorm(VSub(AngMom(s), hr)), Mul(base, VNorm(hr)))
               /\ Le(VNorm(VSub(EccVec(s, r.mu), er)), base)
      at(j) == SVClose(S[j], KepToSV([k EXCEPT ![6] = Div(Mul(TwoPi, j - 1), n - 1)], r.mu), base)
  IN IF n = 0 THEN {}
     ELSE (IF n = r.steps THEN {} ELSE {<<0, "C12", "orbit-steps", "the sampled orbit has the wrong number of points">>})
          \union (IF \A j \in 1..n : on(S[j]) THEN {} ELSE {<<0, "C12", "orbit-points", "a sampled point is not on the orbit">>})
          \union (IF SVClose(S[1], S[n], base) THEN {} ELSE {<<0, "C12", "orbit-closed", "the sampled orbit is not closed">>})
          \union (IF n < 3 \/ \A j \in 1..n : at(j) THEN {} ELSE {<<0, "C12", "orbit-turn", "the sampled orbit does not go once around">>})

Judge(r) ==
  [v |-> {<<0, "C12", "crash", q[1] \o ": " \o q[2]>> : q \in {r.errors[k] : k \in DOMAIN r.errors}}
         \union UNION {HopJudge(r, j) : j \in DOMAIN r.hops} \union GetJudge(r) \union OrbitJudge(r),
   n |-> [hops |-> Len(r.hops), circular |-> IF Lt(r.kep[2], "1e-8") THEN 1 ELSE 0, flat |-> IF Lt(Abs(Sin(r.kep[3])), "1e-8") THEN 1 ELSE 0]]
Report == l = 1 => LET q == Judge(Traces[tr]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, v |-> q.v, n |-> q.n]))
=============================================================================
