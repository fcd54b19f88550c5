------------------------------ MODULE RatesTrace ------------------------------
(***************************************************************************)
(* C13: the rates the code returns move the orbit as Newton's law does, and*)
(* the sensitivity columns returned with the steering are those of the     *)
(* current state.                                                          *)
(***************************************************************************)
EXTENDS Rates, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

Shaped(p) == Len(p) = 3 /\ \A c \in 1..3 : Len(p[c]) = 5
\* size of a row: here and a quarter turn ahead, so that a vanishing sine or cosine does not make it small
ColJudge(r, m, name) ==
  LET p == r[name]
      ahead == Sens(r.et, [r.x EXCEPT ![6] = Add(@, Div(Pi, 2))], r.mu)
      RowNorm(j) == Add(VNorm(m[j]), VNorm(ahead[j]))
  IN IF p = <<>> THEN {}
     ELSE IF ~Shaped(p) THEN {<<0, "C13", "shape", name \o " has the wrong shape">>}
     ELSE {<<j, "C13", "column", name \o ": sensitivity of element " \o ToString(j) \o " to axis " \o ToString(c) \o " is " \o p[c][j]
             \o " expected " \o Str(m[j][c])>> :
             <<j, c>> \in {<<j, c>> \in (1..5) \X (1..3) : ~Close(p[c][j], m[j][c], 0, Mul("1e-11", RowNorm(j)))}}
RateJudge(r) ==
  LET acc == VAdd(r.u, r.p)
      want == Rate(r.et, r.x, r.mu, acc)
      free == \A j \in 1..3 : Eq(acc[j], 0)
  IN IF r.rate = <<>> THEN {}
     ELSE IF Len(r.rate) # 6 THEN {<<0, "C13", "shape", "six rates expected">>}
     ELSE (IF RateIsNewton(r.et, r.x, r.mu, acc, r.rate, "1e-9") THEN {}
           ELSE {<<0, "C13", "newton", "rates " \o ToString(r.rate) \o " expected " \o ToString([j \in 1..6 |-> Str(want[j])])>>})
          \union (IF free /\ ~(\A j \in 1..5 : Eq(r.rate[j], 0)) THEN {<<0, "C13", "free", "an element drifts without acceleration">>} ELSE {})
          \union (IF free /\ ~Close(r.rate[6], Drift(r.et, r.x, r.mu), "1e-11", 0) THEN {<<0, "C13", "drift", "anomaly rate " \o r.rate[6]>>} ELSE {})
Judge(r) ==
  LET m == Sens(r.et, r.x, r.mu)
  IN [v |-> {<<0, "C13", "crash", q[1] \o ": " \o q[2]>> : q \in {r.errors[k] : k \in DOMAIN r.errors}}
            \union ColJudge(r, m, "psi") \union ColJudge(r, m, "psi2") \union ColJudge(r, m, "psi3") \union RateJudge(r),
      n |-> [rate |-> Len(r.rate) = 6, psi |-> r.psi # <<>>, psi2 |-> r.psi2 # <<>>, psi3 |-> r.psi3 # <<>>]]
Report == l = 1 => LET q == Judge(Traces[tr]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, v |-> q.v,
                       n |-> [k \in DOMAIN q.n |-> IF q.n[k] THEN 1 ELSE 0]]))
=============================================================================
