------------------------------ MODULE PlotTrace ------------------------------
(***************************************************************************)
(* C22: what plots draw and reports print, against the recorded run.       *)
(***************************************************************************)
EXTENDS Orbit, TLC, Json, IOUtils, FiniteSets

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>
Bad(clause, text) == {<<0, "C22", clause, text>>}
Deg(x) == Div(Mul(x, 180), Pi)
FinV(x) == \A j \in DOMAIN x : IsFin(x[j])

\* ---- curves -------------------------------------------------------------------
SameNum(a, b, rt, at) == Close(a, b, rt, at)
Curve(line, xs, ys, rt, at) ==
  /\ Len(line.x) = Len(xs) /\ Len(line.y) = Len(ys)
  /\ \A j \in DOMAIN xs : SameNum(line.x[j], xs[j], "1e-12", 0)
  /\ \A j \in DOMAIN ys : SameNum(line.y[j], ys[j], rt, at)
Drawn(ax, xs, ys) == \E k \in DOMAIN ax.lines : Curve(ax.lines[k], xs, ys, "1e-12", "1e-13")
\* an angle in degrees, up to whole turns, kept within one turn
TurnCurve(line, xs, ys, tol) ==
  /\ Len(line.x) = Len(xs) /\ Len(line.y) = Len(ys)
  /\ \A j \in DOMAIN xs : SameNum(line.x[j], xs[j], "1e-12", 0)
  /\ \A j \in DOMAIN ys : IF ~IsFin(ys[j]) THEN TRUE ELSE IsFin(line.y[j]) /\ AngClose(Div(Mul(line.y[j], Pi), 180), ys[j], Add(tol, Mul("1e-14", Abs(ys[j]))))
Within(line, lo, hi) == \A j \in DOMAIN line.y : ~IsFin(line.y[j]) \/ (Ge(line.y[j], lo) /\ Le(line.y[j], hi))
Level(ax, y) == \E k \in DOMAIN ax.lines : Len(ax.lines[k].y) >= 1 /\ \A j \in DOMAIN ax.lines[k].y : SameNum(ax.lines[k].y[j], y, "1e-11", "1e-13")
Scaled(s, c) == [j \in DOMAIN s |-> Mul(s[j], c)]
Need(ok, clause, text) == IF ok THEN {} ELSE Bad(clause, text)
N1(r) == Len(r.times)
Times(r) == Tup(Scaled(r.times, r.TU))
TimesC(r) == Tup(Scaled(SubSeq(r.times, 1, N1(r) - 1), r.TU))
El(r, k) == [j \in 1..N1(r) |-> r.states[j][k]]

\* Keplerian view of a (a f g h k L) state
KepOf(x) ==
  LET O == Atan2(x[5], x[4])
      lp == Atan2(x[3], x[2])
  IN <<N(x[1]), Sqrt(Add(Sq(x[2]), Sq(x[3]))), Mul(2, Atan(Sqrt(Add(Sq(x[4]), Sq(x[5]))))), O, Sub(lp, O), Sub(x[6], lp)>>
ElementsJudge(r) ==
  LET conv == r.kep /\ r.et = "mee_with_a"
      t == Times(r)
      ax == r.axes
      fin == \A j \in 1..N1(r) : FinV(r.states[j])
      K == Tup([j \in 1..N1(r) |-> KepOf(r.states[j])])
      kT == KepOf(r.oeT \o <<"0">>)
      anom == [j \in 1..N1(r) |-> IF conv THEN K[j][6] ELSE N(r.states[j][6])]
      \* angles of nearly circular or flat orbits are ill-conditioned
      emin == CHOOSE e \in {K[j][2] : j \in 1..N1(r)} : \A j \in 1..N1(r) : Le(e, K[j][2])
      tmin == CHOOSE e \in {K[j][3] : j \in 1..N1(r)} : \A j \in 1..N1(r) : Le(e, K[j][3])
      \* a circular or flat orbit leaves some of its angles free
      at == IF Lt(emin, "1e-10") \/ Lt(tmin, "1e-10") THEN N(4) ELSE Add("1e-11", Add(Div("1e-14", emin), Div("1e-14", tmin)))
      angle(k) == \E q \in DOMAIN ax[k].lines : TurnCurve(ax[k].lines[q], t, [j \in 1..N1(r) |-> K[j][k]], at)
      peri == [j \in 1..N1(r) |-> Mul(r.states[j][1], Sub(1, EccOf(r.et, r.states[j])))]
      names == IF conv THEN <<"a", "e", "i", "raan", "om", "ta">> ELSE r.names
      band(k) == \E b \in DOMAIN ax[k].bands : LET v == ax[k].bands[b]
                   IN \A s \in {1, -1} : \E i \in DOMAIN v : Close(v[i][2], Add(r.oeT[k], Mul(s, r.tol[k])), "1e-11", "1e-13")
  IN IF Len(ax) < 6 THEN Bad("elements", "six panels expected")
     ELSE UNION {CASE ~conv -> Need(Drawn(ax[k], t, El(r, k)), "curve", "element " \o r.names[k] \o " is not the recorded history")
                                \union Need(band(k), "target", "target band of element " \o r.names[k])
                   [] conv /\ ~fin -> {}
                   [] conv /\ k = 1 -> Need(Drawn(ax[1], t, El(r, 1)), "curve", "semimajor axis is not the recorded one") \union Need(Level(ax[1], kT[1]), "target", "target semimajor axis")
                   [] conv /\ k = 2 -> Need(\E q \in DOMAIN ax[2].lines : Curve(ax[2].lines[q], t, [j \in 1..N1(r) |-> K[j][2]], "1e-12", "1e-12"), "curve", "eccentricity")
                                       \union Need(Level(ax[2], kT[2]), "target", "target eccentricity")
                   [] conv /\ k = 3 -> Need(\E q \in DOMAIN ax[3].lines : Curve(ax[3].lines[q], t, [j \in 1..N1(r) |-> Deg(K[j][3])], "1e-11", "1e-10"), "curve", "inclination in degrees")
                                       \union Need(Level(ax[3], Deg(kT[3])), "target", "target inclination")
                   [] OTHER -> Need(angle(k), "curve", "angle " \o names[k] \o " in degrees") : k \in 1..5}
          \union {<<0, "C22", "label", "panel of " \o names[k] \o " is labelled " \o ax[k].ylabel>> : k \in {k \in 1..5 : ax[k].ylabel # names[k]}}
          \union (IF r.peri /\ fin THEN Need(\E q \in DOMAIN ax[1].lines : Curve(ax[1].lines[q], t, peri, "1e-11", "1e-13"), "periapsis", "periapsis overlay") ELSE {})
          \union (IF r.mass_shown THEN Need(Drawn(ax[6], t, r.mass), "mass", "mass is not the recorded history")
                  ELSE IF fin THEN Need(\E q \in DOMAIN ax[6].lines : TurnCurve(ax[6].lines[q], t, anom, Add(at, "1e-9")) /\ (Within(ax[6].lines[q], "-180.0000001", "180.0000001") \/ Within(ax[6].lines[q], "-1e-7", "360.0000001")),
                            "anomaly", "anomaly in degrees within one turn") ELSE {})
BatteryJudge(r) ==
  Need(Drawn(r.axes[1], Times(r), Tup(Scaled(r.batt, r.BU))), "battery", "battery is not the recorded history")
  \union Need(Level(r.axes[1], Mul(r.cfg.floor, r.BU)) /\ Level(r.axes[1], Mul(r.cfg.cap, r.BU)), "capacity", "battery limits are not the configured ones")
ControlsJudge(r) ==
  LET ax == r.axes[1]
      t == TimesC(r)
      col(k) == [j \in 1..(N1(r) - 1) |-> r.ctrl[j][k]]
      deg(k) == Tup([j \in 1..(N1(r) - 1) |-> Deg(r.ctrl[j][k])])
      pct == Tup([j \in 1..(N1(r) - 1) |-> Mul(100, r.ctrl[j][3])])
  IN Need(Drawn(ax, t, deg(1)), "alpha", "in-plane angle in degrees") \union Need(Drawn(ax, t, deg(2)), "beta", "out-of-plane angle in degrees")
     \union Need(Drawn(ax, t, pct), "throttle", "throttle in percent")
     \union (IF r.what = "controls" /\ \A j \in 1..N1(r) : FinV(r.states[j])
             THEN Need(\E q \in DOMAIN ax.lines : TurnCurve(ax.lines[q], Times(r), El(r, 6), "1e-9") /\ Within(ax.lines[q], "-180.0000001", "180.0000001"), "anomaly", "wrapped anomaly in degrees")
             ELSE {})
EffJudge(r) ==
  LET t == TimesC(r)
      col(s, k) == [j \in DOMAIN s |-> s[j][k]]
  IN IF Len(r.axes) < 2 THEN Bad("efficiency", "two panels expected")
     ELSE UNION {Need(Drawn(r.axes[k], t, col(r.etas, k)), "efficiency", "efficiency " \o ToString(k)) \union Need(Drawn(r.axes[k], t, col(r.bounds, k)), "threshold", "threshold " \o ToString(k)) : k \in 1..2}
QJudge(r) == Need(Drawn(r.axes[1], TimesC(r), r.Qs), "Q", "Lyapunov values") \union Need(Drawn(r.axes[1], TimesC(r), r.dQ), "dQdt", "Lyapunov rates")

\* ---- trajectories ----------------------------------------------------------------
Space(r) == r.what \in {"traj3d", "traj3d-nosphere"}
XYZ(ln, j) == IF ln.z = <<>> THEN <<N(ln.x[j]), N(ln.y[j])>> ELSE <<N(ln.x[j]), N(ln.y[j]), N(ln.z[j])>>
Path(r, ln) == /\ Len(ln.x) = Len(r.cart)
               /\ \A j \in DOMAIN r.cart : /\ SameNum(ln.x[j], r.cart[j][1], "1e-12", 0) /\ SameNum(ln.y[j], r.cart[j][2], "1e-12", 0)
                                           /\ ln.z = <<>> \/ SameNum(ln.z[j], r.cart[j][3], "1e-12", 0)
\* the whole of an orbit: the n-th point of n equal steps of anomaly, all on it
OnOrbit(r, ln, x) ==
  LET s == ToSV(r.et, x, r.mu)
      h == AngMom(s)
      e == EccVec(s, r.mu)
      p == Div(Dot(h, h), r.mu)
      tol == Div("1e-9", Sq(Sub(1, EccOf(r.et, x))))
      on(q) == /\ Le(Abs(Dot(q, h)), Mul(tol, Mul(VNorm(q), VNorm(h))))
               /\ Le(Abs(Sub(Add(VNorm(q), Dot(q, e)), p)), Mul(tol, p))
      n == Len(ln.x)
      \* planar view: the point of the orbit above (x, y)
      lift(q) == IF Len(q) = 3 THEN q ELSE <<q[1], q[2], Div(Negate(Add(Mul(q[1], h[1]), Mul(q[2], h[2]))), h[3])>>
      edge == Len(XYZ(ln, 1)) = 2 /\ Le(Abs(h[3]), Mul("1e-3", VNorm(h)))
  IN /\ n >= 20
     /\ edge \/ \A j \in 1..n : on(lift(XYZ(ln, j)))
     /\ Le(VNorm(VSub(XYZ(ln, 1), XYZ(ln, n))), Mul("1e-6", x[1]))
     \* goes around: some point is opposite the first one as seen from the focus
     /\ edge \/ \E j \in 1..n : Lt(Dot(lift(XYZ(ln, j)), lift(XYZ(ln, 1))), 0)
Good(r, x) == FinV(x) /\ Gt(x[1], 0) /\ Lt(EccOf(r.et, x), "0.99") /\ (r.et = "keplerian" => Gt(x[2], "1e-9")) /\ Gt(EccOf(r.et, x), "1e-9")
              /\ (r.et = "mee_with_a" => Gt(Add(Sq(x[4]), Sq(x[5])), "1e-12"))
MinAt(s) == CHOOSE v \in {s[j] : j \in DOMAIN s} : \A j \in DOMAIN s : Le(v, s[j])
MaxAt(s) == CHOOSE v \in {s[j] : j \in DOMAIN s} : \A j \in DOMAIN s : Ge(v, s[j])
TrajJudge(r) ==
  LET ax == r.axes[1]
      cfin == \A j \in DOMAIN r.cart : FinV(r.cart[j])
      dims == IF Space(r) THEN 3 ELSE 2
      mark(j) == \E q \in DOMAIN ax.points : Len(ax.points[q]) = dims /\ \A k \in 1..dims : SameNum(ax.points[q][k], r.cart[j][k], "1e-12", 0)
      col(k) == [j \in DOMAIN r.cart |-> r.cart[j][k]]
      rng(k) == Sub(MaxAt(col(k)), MinAt(col(k)))
      mid(k) == Div(Add(MaxAt(col(k)), MinAt(col(k))), 2)
      widest == Max2(rng(1), Max2(rng(2), rng(3)))
      lim(k) == LET a == ax.limits[k]
                IN /\ Le(Abs(Sub(Div(Add(a[1], a[2]), 2), mid(k))), Mul("1e-9", Add(widest, Abs(mid(k)))))
                   /\ Le(Abs(Sub(Sub(a[2], a[1]), Mul(r.scale, widest))), Mul("1e-9", widest))
      sph == UNION {{ax.bands[b][i] : i \in DOMAIN ax.bands[b]} : b \in DOMAIN ax.bands}
  IN IF r.cart = <<>> \/ ~cfin THEN {}
     ELSE Need(\E q \in DOMAIN ax.lines : Path(r, ax.lines[q]), "transfer", "the transfer is not the Cartesian history")
          \union Need(mark(1) /\ mark(Len(r.cart)), "markers", "start and end markers")
          \union (IF Good(r, r.oe0) THEN Need(\E q \in DOMAIN ax.lines : OnOrbit(r, ax.lines[q], r.oe0), "initial", "initial orbit") ELSE {})
          \union (IF Good(r, r.oeT \o <<"0">>) THEN Need(\E q \in DOMAIN ax.lines : OnOrbit(r, ax.lines[q], r.oeT \o <<"0">>), "final", "final orbit") ELSE {})
          \union (IF r.what = "traj3d"
                  THEN Need(sph # {} /\ \A q \in sph : Close(VNorm(q), r.sphere, "1e-9", 0), "sphere", "central body of radius " \o r.sphere)
                       \union (IF Gt(widest, 0) THEN Need(\A k \in 1..3 : lim(k), "axis", "axis limits " \o ToString(ax.limits)) ELSE {})
                  ELSE {})

\* ---- printed reports ---------------------------------------------------------------
\* a printed number shows a value: to its last digit
Shows(p, v, rt, at) == IF IsFin(v) THEN IsFin(p) /\ Le(Abs(Sub(p, v)), Add(at, Mul(rt, Abs(v)))) ELSE N(p) = N(v)
Lines(r, head) == {r.text[j] : j \in {j \in DOMAIN r.text : r.text[j].head = head}}
One(r, head, ok(_), text) == IF \E q \in Lines(r, head) : ok(q.num) THEN {} ELSE Bad("report", head \o ": " \o text \o " printed " \o ToString({q.line : q \in Lines(r, head)}))
PrettyJudge(r) ==
  UNION {LET ok(n) == Len(n) >= 3 /\ Shows(n[1], r.oe0[k], "5.1e-5", 0) /\ Shows(n[2], r.oeT[k], "5.1e-5", 0) /\ Shows(n[3], r.woe[k], "1e-6", "0.0051")
         IN One(r, r.names[k], ok, r.oe0[k] \o " -> " \o r.oeT[k] \o " weight " \o r.woe[k]) : k \in 1..5}
ResultsJudge(r) ==
  LET x == r.states[N1(r)]
      text(head, s) == IF \E q \in Lines(r, head) : \E k \in 1..Len(q.line) : k + Len(s) - 1 <= Len(q.line) /\ SubSeq(q.line, k, k + Len(s) - 1) = s THEN {} ELSE Bad("report", head \o " expected " \o s)
  IN One(r, "Exit code", LAMBDA n : Len(n) >= 1 /\ Eq(n[1], r.code), ToString(r.code))
     \union text("Converge", r.convtext)
     \union UNION {LET ok(n) == Len(n) >= 2 /\ Shows(n[1], x[k], "5.1e-5", 0) /\ Shows(n[2], Abs(Sub(x[k], r.oeT[k])), "5.1e-5", Mul("1e-15", Add(Abs(x[k]), Abs(r.oeT[k]))))
                   IN One(r, r.names[k], ok, x[k] \o " error " \o Str(Abs(Sub(x[k], r.oeT[k])))) : k \in 1..5}
     \union One(r, "Transfer time", LAMBDA n : Len(n) >= 1 /\ Shows(n[1], r.times[N1(r)], "1e-7", 0), r.times[N1(r)])
     \union One(r, "Final mass", LAMBDA n : Len(n) >= 1 /\ Shows(n[1], r.mass[N1(r)], "1e-7", 0), r.mass[N1(r)])
SettingsJudge(r) ==
  LET has(head, s) == IF \E q \in Lines(r, head) : \E k \in 1..Len(q.line) : k + Len(s) - 1 <= Len(q.line) /\ SubSeq(q.line, k, k + Len(s) - 1) = s THEN {} ELSE Bad("report", head \o " expected " \o s)
      vec(head, v) == One(r, head, LAMBDA n : Len(n) >= 5 /\ \A k \in 1..5 : Shows(n[k], v[k], "1e-4", "1e-8"), ToString([k \in 1..5 |-> Str(v[k])]))
  IN has("Element type", r.et) \union has("Integrator", r.integ)
     \union vec("Tolerance", r.tol) \union vec("Relaxed tolerance", [k \in 1..5 |-> Mul(r.tol[k], r.relf)])
     \union One(r, "Exit at relaxed", LAMBDA n : Len(n) >= 1 /\ Eq(n[1], r.cfg.relN), ToString(r.cfg.relN))
     \union UNION {has("Element names", r.names[k]) : k \in 1..6}

\* rows of progress: iteration i shows the state reached by step i + 1
ProgressJudge(r) ==
  LET n == Len(r.ctrl)
      last == IF r.code \in {1, 2} THEN n - 2 ELSE n - 1      \* iterations that get to print
      want == IF r.verb < 2 THEN {} ELSE {i \in 0..last : i % r.freq = 0}
      clamped(j, k) == r.et = "keplerian" /\ k <= 5 /\ (Eq(r.states[j][k], r.oemin[k]) \/ Eq(r.states[j][k], r.oemax[k]))
      rowok(q) == LET i == ToInt(q[1])
                      j == i + 2
                  IN /\ Shows(q[2], r.times[j], "5.1e-4", 0)
                     /\ \A k \in 1..5 : clamped(j, k) \/ Shows(q[2+k], Sub(r.states[j][k], r.oeT[k]), "5.1e-5", Mul("1e-15", Add(Abs(r.states[j][k]), Abs(r.oeT[k]))))
                     /\ Shows(q[8], r.states[j][6], "5.1e-5", 0)
  IN (IF {ToInt(r.prows[a][1]) : a \in DOMAIN r.prows} = want /\ Len(r.prows) = Cardinality(want) THEN {}
      ELSE Bad("progress", "rows for iterations " \o ToString([a \in DOMAIN r.prows |-> r.prows[a][1]]) \o " of " \o ToString(n) \o " steps at frequency " \o ToString(r.freq) \o " verbosity " \o ToString(r.verb)))
     \union UNION {IF ToInt(r.prows[a][1]) + 2 > Len(r.states) \/ rowok(r.prows[a]) THEN {} ELSE Bad("progress", "row " \o ToString(r.prows[a])) : a \in DOMAIN r.prows}

Nothing(r) == r.axes = <<>> /\ r.text = <<>> /\ r.what # "progress"
Judge(r) ==
  {<<0, "C22", "crash", e[1] \o ": " \o e[2]>> : e \in {r.errors[k] : k \in DOMAIN r.errors}}
  \union (IF r.kept THEN {} ELSE {<<0, p, "kept", "plotting altered the recorded data">> : p \in {"C22", "C18"}})
  \union (IF r.note # "" \/ Nothing(r) THEN {}
          ELSE CASE r.what \in {"elements", "elements-kep", "elements-peri", "elements-kep-peri", "elements-nomass"} -> ElementsJudge(r)
                 [] r.what = "battery" -> BatteryJudge(r)
                 [] r.what \in {"controls", "controls-noanomaly"} -> ControlsJudge(r)
                 [] r.what = "efficiency" -> EffJudge(r)
                 [] r.what = "Q" -> QJudge(r)
                 [] r.what \in {"traj2d", "traj2d-interp", "traj3d", "traj3d-nosphere"} -> TrajJudge(r)
                 [] r.what = "pretty" -> PrettyJudge(r)
                 [] r.what = "results" -> ResultsJudge(r)
                 [] r.what = "settings" -> SettingsJudge(r)
                 [] r.what = "progress" -> ProgressJudge(r))
Report == l = 1 => LET r == Traces[tr] IN PrintT("VERDICT " \o ToJson([id |-> r.id, v |-> Judge(r), n |-> (r.what :> IF r.note # "" \/ Nothing(r) THEN 0 ELSE 1)]))
=============================================================================
