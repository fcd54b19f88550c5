------------------------------ MODULE JudgeTrace ------------------------------
(***************************************************************************)
(* C16: the convergence predicate, called directly and through a solve     *)
(* whose slow elements cannot move (the thruster is disabled).             *)
(***************************************************************************)
EXTENDS Converge, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

YN(S) == {IF b THEN "yes" ELSE "no" : b \in S}
Judge(r) ==
  LET rel == [j \in 1..5 |-> Mul(r.relf, r.tol[j])]
      T == Conv(r.et, r.oe, r.oeT, r.woe, r.tol)
      R == Conv(r.et, r.oe, r.oeT, r.woe, rel)
      L == Classes(r.et, r.last, r.oeT, r.woe, r.tol, r.relf)
      codes == {CASE k = "tight" -> 1 [] k = "relaxed" -> 2 [] k = "none" -> -2 : k \in L}
      bad(c, t) == {<<0, "C16", c, t>>}
  IN [v |-> {<<0, "C16", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
        \union (IF r.direct = "" \/ r.direct \in YN(T) THEN {} ELSE bad("tight", "judged " \o r.direct \o " at the tolerance"))
        \union (IF r.relaxed = "" \/ r.relaxed \in YN(R) THEN {} ELSE bad("relaxed", "judged " \o r.relaxed \o " at the relaxed tolerance"))
        \union (IF r.steps = 0 \/ r.code \in codes THEN {} ELSE bad("solve", "solve ended with code " \o ToString(r.code) \o " expected " \o ToString(codes)))
        \union (IF r.steps = 0 \/ (r.code = -2) = (~r.conv) THEN {} ELSE bad("flag", "converged flag does not match")),
      n |-> [tight |-> IF TRUE \in T THEN 1 ELSE 0, relaxed |-> IF T = {FALSE} /\ TRUE \in R THEN 1 ELSE 0, none |-> IF R = {FALSE} THEN 1 ELSE 0,
             either |-> IF T = {TRUE, FALSE} THEN 1 ELSE 0]]
Report == l = 1 => LET q == Judge(Traces[tr]) IN PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, v |-> q.v, n |-> q.n]))
=============================================================================
