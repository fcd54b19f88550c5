----------------------------- MODULE HelperTrace -----------------------------
(* C22, helpers: points on surfaces, wrapped angles, equal axes. *)
EXTENDS Num, Integers, Sequences, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>
Bad(j, clause, text) == {<<j, "C22", clause, text>>}

\* on the ellipsoid, and all of it: poles are reached, the other extents nearly
Surface(r) ==
  LET on(q) == LET s == Sum([k \in 1..3 |-> Sq(Div(Sub(q[k], r.center[k]), r.radii[k]))])
                   \* a far centre costs digits
                   loss == Sum([k \in 1..3 |-> Div(Abs(r.center[k]), r.radii[k])])
               IN Le(Abs(Sub(s, 1)), Add("1e-13", Mul("1e-14", loss)))
      reach(k, f) == /\ Le(r.ext[k][1], Sub(r.center[k], Mul(f, r.radii[k])))
                     /\ Ge(r.ext[k][2], Add(r.center[k], Mul(f, r.radii[k])))
  IN IF r.pts = <<>> THEN {}
     ELSE (IF \A j \in DOMAIN r.pts : on(r.pts[j]) THEN {} ELSE Bad(0, "surface", "a point is not on the surface"))
          \union (IF reach(1, "0.7") /\ reach(2, "0.7") /\ reach(3, "0.999999") THEN {} ELSE Bad(0, "whole", "the points do not go around the surface"))
          \union (IF r.what = "ellipsoid" /\ r.shape # <<r.n, r.n>> THEN Bad(0, "mesh", "mesh of " \o ToString(r.shape)) ELSE {})
WrapJudge(r) ==
  UNION {LET x == r.angles[j][1]  y == r.angles[j][2]
             turns == Div(Sub(x, y), TwoPi)
             tol == Add("1e-15", Mul("1e-15", Abs(x)))
         IN IF IsFin(y) /\ Le(Abs(y), Add(Pi, tol)) /\ Le(Abs(Sub(turns, Round(turns))), tol) THEN {}
            ELSE Bad(j, "wrap", "wrap(" \o x \o ") = " \o y) : j \in DOMAIN r.angles}
Mid(a) == Div(Add(a[1], a[2]), 2)
Range(a) == Abs(Sub(a[2], a[1]))
AxisJudge(r) ==
  LET widest == Max2(Range(r.lims[1]), Max2(Range(r.lims[2]), Range(r.lims[3])))
      n == IF r.what = "axis3" THEN 3 ELSE 2
      ok(k) == LET a == r.limits[k]
                   tol == Mul("1e-12", Add(widest, Abs(Mid(r.lims[k]))))
               IN /\ Le(Abs(Sub(Mid(a), Mid(r.lims[k]))), tol)
                  /\ Le(Abs(Sub(Range(a), Mul(r.scale, widest))), tol)
  IN UNION {IF ok(k) THEN {} ELSE Bad(k, "axis", "limits " \o ToString(r.limits[k]) \o " for data " \o ToString(r.lims) \o " scale " \o r.scale) : k \in 1..n}
Judge(r) == {<<0, "C22", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
  \union (CASE r.what \in {"sphere", "ellipsoid", "wire-sphere", "wire-ellipsoid"} -> Surface(r)
            [] r.what = "wrap" -> WrapJudge(r)
            [] OTHER -> IF r.errors = <<>> THEN AxisJudge(r) ELSE {})
Report == l = 1 => LET r == Traces[tr] IN PrintT("VERDICT " \o ToJson([id |-> r.id, v |-> Judge(r), n |-> (r.what :> 1)]))
=============================================================================
