------------------------------ MODULE Converge ------------------------------
(***************************************************************************)
(* When does a state count as converged?  Elements 1..5 against the target *)
(* with weights and tolerances; node and periapsis of Keplerian elements   *)
(* modulo a full turn.  Near the boundary, where one rounding decides, the *)
(* answer is the set of both truth values.                                 *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences

\* distance of element j from its target
ElemDist(et, oe, oeT, j) ==
  LET d == Sub(oe[j], oeT[j]) IN IF et = "keplerian" /\ j \in {4, 5} THEN Abs(Wrap(d)) ELSE Abs(d)

\* numbers of few binary digits: their difference is exact, and the tolerance is inclusive to the last bit
Dyadic(x) == LET y == Mul(x, 4096) IN Eq(y, Round(y)) /\ Lt(Abs(y), "1e9")

\* rounding of the distance as a double-precision code computes it: differences are accurate to a few ulps of their
\* operands, a distance through arccos(cos) to about 1e-16 over the distance (1.5e-8 at worst)
DistErr(et, oe, oeT, j) ==
  LET base == Mul("1e-15", Add(Abs(oe[j]), Abs(oeT[j])))
      d == ElemDist(et, oe, oeT, j)
      \* the error of arccos(cos d) grows as 1/sin(d), near 0 and near a half turn
      sd == Abs(Sin(d))
  IN IF et = "keplerian" /\ j \in {4, 5}
     THEN Add(base, Min2("4e-8", Div("1e-15", Max2(sd, "1e-12"))))
     ELSE IF Dyadic(oe[j]) /\ Dyadic(oeT[j]) THEN N(0) ELSE base

\* the set of possible verdicts for one element
ElemOK(et, oe, oeT, woe, tol, j) ==
  IF Eq(woe[j], 0) THEN {TRUE}
  ELSE LET d == ElemDist(et, oe, oeT, j)
           err == DistErr(et, oe, oeT, j)
       IN IF IsNan(d) THEN {FALSE}
          ELSE IF Eq(err, 0) THEN {Le(d, tol[j])}
          ELSE IF Le(Add(d, err), tol[j]) THEN {TRUE}
          ELSE IF Le(Sub(d, err), tol[j]) THEN {TRUE, FALSE}
          ELSE {FALSE}

Conv(et, oe, oeT, woe, tol) ==
  LET r == [j \in 1..5 |-> ElemOK(et, oe, oeT, woe, tol, j)]
  IN IF \E j \in 1..5 : r[j] = {FALSE} THEN {FALSE}
     ELSE IF \A j \in 1..5 : r[j] = {TRUE} THEN {TRUE}
     ELSE {TRUE, FALSE}

\* classes of a state: tight, relaxed (only the relaxed tolerance), none
Classes(et, oe, oeT, woe, tol, relf) ==
  LET T == Conv(et, oe, oeT, woe, tol)
      R == Conv(et, oe, oeT, woe, [j \in 1..5 |-> Mul(relf, tol[j])])
  IN (IF TRUE \in T THEN {"tight"} ELSE {})
     \union (IF FALSE \in T /\ TRUE \in R THEN {"relaxed"} ELSE {})
     \union (IF FALSE \in T /\ FALSE \in R THEN {"none"} ELSE {})
=============================================================================
