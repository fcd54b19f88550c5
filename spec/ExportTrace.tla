----------------------------- MODULE ExportTrace -----------------------------
(***************************************************************************)
(* C19: exported dictionaries and files, Cartesian and interpolated        *)
(* histories, against the recorded run.                                    *)
(***************************************************************************)
EXTENDS Orbit, TLC, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

FinV(x) == \A j \in DOMAIN x : IsFin(x[j])
Bad(j, clause, text) == {<<j, "C19", clause, text>>}
Ecc1(r, x) == EccOf(r.et, x)
\* a recorded state that describes a bounded orbit (a run may leave them)
Bounded(r, x) == FinV(x) /\ Gt(x[1], 0) /\ Lt(Ecc1(r, x), "0.999") /\ (r.et = "keplerian" => Ge(x[2], 0))
\* what doubles hold: near-parabolic orbits lose digits, and so do angles after many turns
Turns(r, x) == IF r.et = "keplerian" THEN Add(Abs(x[4]), Add(Abs(x[5]), Abs(x[6]))) ELSE Abs(x[6])
Tol(r, x) == Div(Add("1e-12", Mul("1e-15", Turns(r, x))), Sq(Sub(1, Ecc1(r, x))))
Sing(r, x) == r.et = "keplerian" /\ Lt(Abs(Cos(Div(x[3], 2))), "1e-6")

StateRow(r, row, j) ==
  LET x == r.states[j]
  IN IF Len(row) # 7 THEN Bad(j, "row", "a state row has " \o ToString(Len(row)) \o " entries")
     ELSE (IF row[7] # r.mass[j] THEN Bad(j, "mass", "mass " \o row[7] \o " recorded " \o r.mass[j]) ELSE {})
          \union (IF ~Bounded(r, x) \/ Sing(r, x) THEN {}
                  ELSE LET q == SubSeq(row, 1, 6)
                       IN IF ~FinV(q) THEN Bad(j, "orbit", "exported elements are not finite")
                          ELSE IF ~SVClose(MeeToSV(q, r.mu), ToSV(r.et, x, r.mu), Tol(r, x)) THEN Bad(j, "orbit", "exported elements describe another orbit") ELSE {})
CtrlRow(r, row, j) ==
  LET last == j > Len(r.ctrl)
      c == IF last THEN <<"0", "0", "0">> ELSE r.ctrl[j]
  IN IF r.angles
     THEN IF Len(row) = 3 /\ \A k \in 1..3 : Eq(row[k], c[k]) \/ row[k] = c[k] THEN {} ELSE Bad(j, "angles", "control row " \o ToString(row) \o " recorded " \o ToString(c))
     ELSE IF Len(row) # 4 THEN Bad(j, "controls", "a control row has " \o ToString(Len(row)) \o " entries")
     ELSE IF ~FinV(c) THEN {}
     ELSE LET want == <<Mul(Cos(c[2]), Sin(c[1])), Mul(Cos(c[2]), Cos(c[1])), Sin(c[2]), N(c[3])>>
          IN IF \A k \in 1..4 : Close(row[k], want[k], 0, "1e-14") THEN {} ELSE Bad(j, "controls", "control row " \o ToString(row) \o " recorded angles " \o ToString(c))
Exported(r, d) ==
  LET n == Len(r.times)
  IN (IF d.times = r.times THEN {} ELSE Bad(0, "times", "exported times differ from the recorded ones"))
     \union (IF n > 0 /\ d.tf = r.times[n] /\ Eq(d.t0, r.times[1]) THEN {} ELSE Bad(0, "final-time", "t0 " \o d.t0 \o " tf " \o d.tf))
     \union (IF d.units = r.units THEN {} ELSE Bad(0, "units", d.units))
     \union (IF Len(d.states) = n THEN UNION {StateRow(r, d.states[j], j) : j \in 1..n} ELSE Bad(0, "states", ToString(Len(d.states)) \o " state rows"))
     \union (IF Len(d.controls) = n THEN UNION {CtrlRow(r, d.controls[j], j) : j \in 1..n} ELSE Bad(0, "rows", ToString(Len(d.controls)) \o " control rows for " \o ToString(n) \o " times"))
CartJudge(r, rows) ==
  IF Len(rows) # Len(r.states) THEN Bad(0, "cartesian", "number of rows")
  ELSE UNION {IF ~Bounded(r, r.states[j]) THEN {}
              ELSE IF FinV(rows[j]) /\ SVClose(rows[j], ToSV(r.et, r.states[j], r.mu), Tol(r, r.states[j])) THEN {}
              ELSE Bad(j, "cartesian", "position and velocity are not those of the recorded elements") : j \in 1..Len(rows)}
\* the interpolant passes through the data; interpolation arithmetic loses digits on uneven grids
Near(a, b, tol) == Len(a) = 6 /\ \A k \in 1..6 : Le(Abs(Sub(a[k], b[k])), Mul(tol, Add(1, Abs(b[k]))))
AtJudge(r) ==
  UNION {IF ~FinV(r.states[j]) \/ (\E q \in DOMAIN r.states : ~FinV(r.states[q])) THEN {}
         ELSE IF FinV(r.at[j]) /\ Near(r.at[j], r.states[j], "1e-7") THEN {}
         ELSE Bad(j, "interpolate", "interpolated " \o ToString(r.at[j]) \o " recorded " \o ToString(r.states[j])) : j \in DOMAIN r.at}
\* linear between neighbours; with as few points as the order needs, the polynomial through them
Order(k) == CASE k = "linear" -> 1 [] k = "quadratic" -> 2 [] k = "cubic" -> 3
Lagrange(r, q, t) ==
  LET n == Len(r.times)
      w(j) == Prod([i \in 1..n |-> IF i = j THEN N(1) ELSE Div(Sub(t, r.times[i]), Sub(r.times[j], r.times[i]))])
  IN Sum([j \in 1..n |-> Mul(w(j), r.states[j][q])])
MidJudge(r) ==
  LET few == Len(r.times) = Order(r.kind_i) + 1
      J == {j \in DOMAIN r.mid : FinV(r.states[j]) /\ FinV(r.states[j+1])}
      chk(j, want) == IF FinV(r.mid[j]) /\ Near(Tail(r.mid[j]), want, "1e-7") THEN {} ELSE Bad(j, r.kind_i, "between recorded states: " \o ToString(r.mid[j]) \o " expected " \o ToString([k \in 1..6 |-> Str(want[k])]))
  IN IF few THEN UNION {chk(j, Tup([k \in 1..6 |-> Lagrange(r, k, r.mid[j][1])])) : j \in J}
     ELSE IF r.kind_i = "linear" THEN UNION {chk(j, Tup([k \in 1..6 |-> Div(Add(r.states[j][k], r.states[j+1][k]), 2)])) : j \in J}
     ELSE {}
InterpJudge(r, y) ==
  LET n == Len(y.t)
      T == r.times[Len(r.times)]
      ok(x) == FinV(x) /\ Gt(x[1], 0) /\ Lt(Ecc1(r, x), "0.999") /\ Gt(Ecc1(r, x), "-0.999")
  IN (IF n > 1 /\ Eq(y.t[1], r.times[1]) /\ Eq(y.t[n], T) THEN {} ELSE Bad(0, "interval", "the times asked for do not cover the transfer: " \o ToString(IF n = 0 THEN <<>> ELSE <<y.t[1], y.t[n]>>)))
     \union (IF y.steps = 0 \/ (n = y.steps /\ \A k \in 1..n : Close(y.t[k], Div(Mul(T, k - 1), n - 1), "1e-12", 0)) THEN {} ELSE Bad(0, "grid", "the times are not the even grid asked for"))
     \union (IF Len(y.cart) # n THEN Bad(0, "grid", "number of rows") ELSE
             UNION {IF ~ok(y.el[k]) THEN {}
                    ELSE IF FinV(y.cart[k]) /\ SVClose(y.cart[k], ToSV(r.et, y.el[k], r.mu), Tol(r, y.el[k])) THEN {}
                    ELSE Bad(k, "interpolated", "not the position and velocity of the interpolated elements") : k \in 1..n})
Judge(r) ==
  {<<0, "C19", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
  \union UNION {Exported(r, r.dict[k]) : k \in DOMAIN r.dict}
  \union (IF r.file # <<>> /\ r.dict # <<>> /\ r.file[1] # r.dict[1] THEN Bad(0, "file", "the file differs from the dictionary") ELSE {})
  \union UNION {CartJudge(r, r.cart[k]) : k \in DOMAIN r.cart}
  \union AtJudge(r) \union MidJudge(r) \union UNION {InterpJudge(r, r.interp[k]) : k \in DOMAIN r.interp}
  \union (IF r.kept THEN {} ELSE {<<0, p, "kept", "exporting altered the recorded data">> : p \in {"C19", "C18"}})
Report == l = 1 => LET r == Traces[tr]
  IN PrintT("VERDICT " \o ToJson([id |-> r.id, v |-> Judge(r), n |-> [rows |-> IF r.dict = <<>> THEN 0 ELSE Len(r.times), unsolved |-> IF r.dict = <<>> THEN 1 ELSE 0,
              files |-> Len(r.file), interpolated |-> Len(r.interp), polynomial |-> IF r.mid # <<>> /\ Len(r.times) = Order(r.kind_i) + 1 /\ r.kind_i # "linear" THEN 1 ELSE 0]]))
=============================================================================
