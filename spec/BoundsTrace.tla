----------------------------- MODULE BoundsTrace -----------------------------
(***************************************************************************)
(* C17: the five slow elements clamped, the anomaly untouched.             *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

Want(r, i) == IF i = 6 THEN N(r.oe[6]) ELSE Min2(Max2(r.oe[i], r.lo[i]), r.hi[i])
Judge(r) == {<<0, "C17", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
   \union (IF r.out = <<>> THEN {} ELSE {<<i, "C17", "clamp", "element " \o ToString(i) \o " is " \o r.out[i] \o " expected " \o Str(Want(r, i))>> :
                                         i \in {i \in 1..6 : ~Eq(r.out[i], Want(r, i))}})
Report == l = 1 => PrintT("VERDICT " \o ToJson([id |-> Traces[tr].id, v |-> Judge(Traces[tr]),
             n |-> [moved |-> IF \E i \in 1..5 : ~Eq(Want(Traces[tr], i), Traces[tr].oe[i]) THEN 1 ELSE 0]]))
=============================================================================
