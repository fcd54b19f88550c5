----------------------------- MODULE ConfigTrace -----------------------------
(***************************************************************************)
(* C21: recorded probes of the configuration interface against Config.     *)
(***************************************************************************)
EXTENDS Config, Json, IOUtils

Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l
Init == tr \in 1..Len(Traces) /\ l = 0
Next == l = 0 /\ l' = 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_<<tr, l>>

Bad(j, clause, text) == {<<j, "C21", clause, text>>}
SumIs(seq, S) == \A x \in S : \E i \in DOMAIN seq : Eq(seq[i], x)

\* what the run with value x of option r.opt (x.list: its numbers; the default where omitted) shows
Shown(r, j) ==
  LET x == r.runs[j]
      v == IF x.v = "" THEN r.dlist ELSE x.list
      lit == IF x.v = "" THEN r.default ELSE x.v
      o == r.opt
      B(ok, text) == IF ok THEN {} ELSE Bad(j, o, (IF x.v = "" THEN "omitted" ELSE x.v) \o ": " \o text)
      end(e) == B(x.code = e.code /\ x.steps = e.steps, "ends with " \o ToString(x.code) \o " after " \o ToString(x.steps) \o " steps, expected "
                  \o ToString(e.code) \o " after " \o ToString(e.steps))
      first(lo, hi) == B(\A i \in 1..5 : Eq(x.s1[i], IF x.etv = "keplerian" THEN Clamp(x.oe0[i], lo[i], hi[i]) ELSE x.oe0[i]), "first state " \o ToString(x.s1))
      dmin == <<"0.05", "1e-4", "1e-4", "1e-4", "1e-4">>
      dmax == <<"100", "0.95", "3.141592653589793", "inf", "inf">>
      \* lowest battery level: down to the floor, not below
      lowest(b) == CHOOSE i \in DOMAIN b : \A k \in DOMAIN b : Le(b[i], b[k])
  IN IF x.err # "" THEN Bad(j, o, "value " \o x.v \o " is refused: " \o x.err)
     ELSE CASE r.ctx = "value" -> B(Close(x.q1, QFun(x.etv, x.oe0, x.oeT, x.woe, x.mu, x.f, x.par), "1e-8", 0), "Lyapunov value " \o x.q1 \o " expected "
                                    \o Str(QFun(x.etv, x.oe0, x.oeT, x.woe, x.mu, x.f, x.par)))
            [] o = "tol_oe" /\ r.ctx = "coarse" -> end(OffEnd(Off2, v[1], 10, 100))
            [] o = "tol_oe" -> end(NearEnd(v[1], 10, 100))
            [] o = "relaxed_tol_factor" -> end(NearEnd("2e-4", v[1], 100))
            [] o = "exit_at_relaxed" -> end(NearEnd("2e-4", 10, ToInt(v[1])))
            [] o = "nan_angles_threshold" -> end(End(-3, ToInt(v[1])))
            [] o = "mass_min" -> end(MassEnd(v[1]))
            [] o = "tf_max" -> end(SlowEnd(v[1]))
            [] o = "oe_min" -> first(v, dmax)
            [] o = "oe_max" -> first(dmin, v)
            [] o = "t_step" -> B(Eq(x.t[2], v[1]), "first step " \o x.t[2])
            [] o = "use_sundman" -> LET want == IF lit = "true" THEN SundmanStep(x.etv, x.oe0, x.mu, "0.1") ELSE N("0.1")
                                    IN B(Close(x.t[2], want, "1e-10", 0), "first step " \o x.t[2] \o " expected " \o Str(want))
            [] o = "battery_initial" -> B(Eq(x.b[1], v[1]), "first level " \o x.b[1])
            [] o = "battery_capacity" -> B(Close(x.b[lowest(x.b)], v[1], 0, "1e-12") /\ \A i \in 2..Len(x.b) : Le(x.b[i], v[2]), "levels " \o ToString(x.b))
            [] o = "battery_charge_discharge_rate" -> LET want == Max2("0.2", Sub(1, Mul(v[2], "0.1"))) IN B(Close(x.b[2], want, 0, "1e-14"), "second level " \o x.b[2])
            [] o = "duty_cycle" -> B((\A i \in DOMAIN x.thr : Eq(x.thr[i], 1)) <=> Gt(v[1], 1), "throttle " \o ToString(x.thr))
            [] o = "eta_a" -> B(Eq(x.eb[1][1], v[1]) /\ Eq(x.eb[1][2], 0), "thresholds " \o ToString(x.eb[1]))
            [] o = "eta_r" -> B(Eq(x.eb[1][2], v[1]) /\ Eq(x.eb[1][1], 0), "thresholds " \o ToString(x.eb[1]))
            [] o = "verbosity" -> B(CASE v[1] = "0" -> x.silent [] v[1] = "1" -> ~x.silent /\ x.rows = 0 [] OTHER -> ~x.silent /\ x.rows = RowCount(x.steps, 200),
                                     "printed " \o ToString(x.rows) \o " rows, silent " \o ToString(x.silent))
            [] o = "print_frequency" -> B(x.rows = RowCount(x.steps, ToInt(v[1])), "printed " \o ToString(x.rows) \o " rows in " \o ToString(x.steps) \o " steps")
            [] OTHER -> {}
Alters == {"integrator", "anomaly_grid_size", "perturbations", "use_sundman", "duty_cycle", "require_full_recharge", "eta_a", "eta_r", "elements_type", "mu",
           "rpmin", "k_petro", "wp", "m_petro", "n_petro", "r_petro", "woe", "t_step", "battery_initial"}
Keeps == {"verbosity", "print_frequency"}
OptionJudge(r) ==
  LET d == r.runs[2].dig
  IN (IF r.runs[1].dig = d THEN {} ELSE Bad(1, "default", r.opt \o " omitted differs from its documented default " \o r.default))
     \union (IF r.opt \in Alters /\ r.base = 1 THEN UNION {IF r.runs[j].dig # d THEN {} ELSE Bad(j, "effect", r.opt \o " = " \o r.runs[j].v \o " has no effect") : j \in 3..Len(r.runs)} ELSE {})
     \union (IF r.opt \in Keeps THEN UNION {IF r.runs[j].dig = d THEN {} ELSE {<<j, p, "quiet", r.opt \o " = " \o r.runs[j].v \o " changes the results">> : p \in {"C21", "C18"}} : j \in 3..Len(r.runs)} ELSE {})
     \union UNION {Shown(r, j) : j \in {j \in 1..Len(r.runs) : r.base = 1 \/ (r.ctx = "value" /\ IsFin(r.runs[j].q1))}}
RefuseJudge(r) ==
  UNION {LET t == r.tries[j]
         IN (IF t.refused THEN {} ELSE Bad(j, "refusal", r.stage \o " accepts " \o r.opt \o " = " \o t.bad))
            \union (IF t.same \/ ~t.refused THEN {} ELSE Bad(j, "refused-kept", "a refused assignment of " \o r.opt \o " = " \o t.bad \o " changes the results")) : j \in DOMAIN r.tries}
SameJudge(r) ==
  (IF r.a.err = "" THEN {} ELSE Bad(0, "valid", r.opt \o ": " \o r.a.err)) \union (IF r.b.err = "" THEN {} ELSE Bad(0, "valid", r.opt \o ": " \o r.b.err))
  \union (IF r.a.dig = r.b.dig THEN {} ELSE Bad(0, "same", r.opt \o ": two ways of passing the same give different results"))
Judge(r) == CASE r.form = "option" -> OptionJudge(r) [] r.form = "refuse" -> RefuseJudge(r) [] r.form = "same" -> SameJudge(r)
Report == l = 1 => LET r == Traces[tr]
  IN PrintT("VERDICT " \o ToJson([id |-> r.id, v |-> Judge(r), n |-> (r.form :> 1) @@ [runs |-> IF r.form = "option" THEN Len(r.runs) ELSE 1]]))
=============================================================================
