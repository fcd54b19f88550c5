-------------------------------- MODULE Config --------------------------------
(***************************************************************************)
(* The configuration interface: every option with its documented default,  *)
(* what must be refused, and ways of passing the same thing.               *)
(* Values are JSON texts.  An option is probed in a context in which it    *)
(* shows (described here, built by the driver):                            *)
(*   value   a far target: shows in the Lyapunov value of the first step   *)
(*   near    5e-4 off the target in the first element, hardly any thrust,  *)
(*           at most 111 steps                                             *)
(*   coarse  3 off a target of 9 in the first element, tolerances of that   *)
(*           size; hardly any thrust, 111 steps                            *)
(*   nan     a target that is not a number: no direction is ever defined   *)
(*   mass    0.10045, less 1e-4 per step, at most 11 steps                 *)
(*   low/high Keplerian elements below / above the default bounds          *)
(*   slow    mean motion of 3e-5, steps of 2003                            *)
(*   drain   a battery losing 1.0 per unit of time                         *)
(*   relative a relative threshold of 0.5                                  *)
(*   plain   nothing special: 11 steps of 0.1                              *)
(***************************************************************************)
EXTENDS Lyap, TLC, FiniteSets

Off == "5e-4"
Off2 == "3"
O(name, stage, ctx, default, others) == [form |-> "option", opt |-> name, stage |-> stage, ctx |-> ctx, default |-> default, others |-> others]
Options == <<
  O("mu", "ctor", "value", "1.0", <<"1.7", "0.25">>),
  O("rpmin", "ctor", "value", "0.1", <<"0.3", "0.6">>),
  O("k_petro", "ctor", "value", "1.0", <<"2.5", "0.3">>),
  O("m_petro", "ctor", "value", "3.0", <<"0.2", "1.0">>),
  O("n_petro", "ctor", "value", "4.0", <<"2.0", "1.0">>),
  O("r_petro", "ctor", "value", "2.0", <<"1.0", "3.5">>),
  O("b_petro", "ctor", "value", "0.01", <<"0.4", "0.0">>),
  O("wp", "ctor", "value", "1.0", <<"0.0", "5.0">>),
  O("woe", "set", "value", "[1.0, 1.0, 1.0, 1.0, 1.0]", <<"[1.0, 0.0, 0.0, 0.0, 0.0]", "[0.5, 2.0, 3.0, 0.1, 0.7]", "[0, 1, 1, 1, 0]">>),
  O("elements_type", "ctor", "value", "\"mee_with_a\"", <<"\"keplerian\"">>),
  O("integrator", "ctor", "plain", "\"rk4\"", <<"\"rkf45\"">>),
  O("verbosity", "ctor", "talk", "1", <<"0", "2">>),
  O("print_frequency", "ctor", "talk2", "200", <<"1", "7">>),
  O("anomaly_grid_size", "ctor", "relative", "5", <<"8", "3", "2">>),
  O("tol_oe", "ctor", "near", "[1e-3, 1e-3, 1e-3, 1e-3, 1e-3]", <<"[1e-5, 1e-5, 1e-5, 1e-5, 1e-5]", "[2e-4, 1.0, 1.0, 1.0, 1.0]", "[6e-4, 0.0001, 1e-2, 1, 1]">>),
  O("tol_oe", "ctor", "coarse", "[1e-3, 1e-3, 1e-3, 1e-3, 1e-3]", <<"[7.0, 1.0, 1.0, 1.0, 1.0]", "[2.5, 6.0, 6.5, 7.0, 7.5]", "[0.25, 9.0, 9.0, 9.0, 9.0]", "[3.25, 1e-9, 1e-9, 1e-9, 1e-9]">>),
  O("relaxed_tol_factor", "ctor", "near2", "10", <<"2", "2.6", "1", "1.0">>),
  O("exit_at_relaxed", "ctor", "near2", "100", <<"1", "37", "111", "112">>),
  O("nan_angles_threshold", "ctor", "nan", "10", <<"0", "3", "25">>),
  O("oe_min", "ctor", "low", "[0.05, 1e-4, 1e-4, 1e-4, 1e-4, 1e-8]", <<"[0.01, 1e-5, 0.02, -9.0, 0.7, 0.0]", "[0.2, 0.3, 0.4, 0.5, 0.6, 1e-8]">>),
  O("oe_max", "ctor", "high", "[100.0, 0.95, 3.141592653589793, Infinity, Infinity, Infinity]", <<"[200.0, 0.99, 2.0, 1.0, 1.5, 9.0]", "[3.0, 0.5, 1.0, 3.0, 750.0, Infinity]">>),
  O("use_sundman", "ctor", "plain", "false", <<"true">>),
  O("perturbations", "ctor", "plain", "null", <<"\"fun\"">>),
  O("tf_max", "set", "slow", "100000.0", <<"30000.0", "2003", "-30000.0">>),
  O("t_step", "set", "plain", "0.1", <<"0.07", "-0.2", "0.5">>),
  O("mass_min", "set", "mass", "0.1", <<"0.1003", "0.01", "0.09">>),
  O("duty_cycle", "set", "plain", "[1e16, 0.0]", <<"[0.25, 0.3]", "[0.0, 0.5]">>),
  O("battery_initial", "set", "plain", "1.0", <<"0.7", "0.21">>),
  O("battery_capacity", "set", "drain", "[0.2, 1.0]", <<"[0.5, 0.65]", "[0.0, 2.0]">>),
  O("battery_charge_discharge_rate", "set", "plain", "[0.0, 0.0]", <<"[0.1, 0.3]", "[0.0, 1.0]">>),
  O("require_full_recharge", "set", "cycle", "false", <<"true">>),
  O("eta_a", "solve", "plain", "0.0", <<"0.3", "1.0">>),
  O("eta_r", "solve", "plain", "0.0", <<"0.4", "0.9">>) >>

\* what is refused, and when
F(stage, arg, bad) == [form |-> "refuse", stage |-> stage, opt |-> arg, bad |-> bad]
Refusals == <<
  F("ctor", "mu", <<"0", "0.0", "-1.0", "-1e-9", "NaN">>), F("assign", "mu", <<"0", "-2.5", "NaN">>),
  F("assign-set", "mu", <<"0", "-1.0", "NaN">>), F("assign-solved", "mu", <<"0.0", "-0.3", "NaN">>),
  F("assign-set", "integrator", <<"\"rk45\"", "null">>), F("assign-solved", "integrator", <<"\"RKF45\"", "\"\"">>),
  F("assign-set", "elements_type", <<"\"mee\"", "null">>), F("assign-solved", "elements_type", <<"\"kep\"", "\"\"">>),
  F("ctor", "elements_type", <<"\"mee\"", "\"Keplerian\"", "null", "\"\"", "\"cartesian\"">>), F("assign", "elements_type", <<"\"mee\"", "\"kepler\"", "null">>),
  F("ctor", "integrator", <<"\"rk45\"", "\"RK4\"", "null", "\"euler\"">>), F("assign", "integrator", <<"\"rk45\"", "\"rk4 \"", "4">>),
  F("ctor", "relaxed_tol_factor", <<"0.5", "0", "-10", "0.999999", "NaN">>),
  F("ctor", "tol_oe", <<"[1e-3, 1e-3, 1e-3, 1e-3]", "[1e-3, 1e-3, 1e-3, 1e-3, 1e-3, 1e-3]", "[]">>),
  F("set", "oe0", <<"5", "7", "0", "1">>),
  F("set", "woe", <<"[1.0, 1.0, 1.0, 1.0]", "[1.0, 1.0, 1.0, 1.0, 1.0, 1.0]", "[]">>),
  F("set", "mass_min", <<"0.0099", "0.0", "-1.0", "0">>),
  F("solve", "eta_a", <<"\"0.1\"", "null", "[0.1]", "{}">>), F("solve", "eta_r", <<"\"0.1\"", "null", "[0.1]", "{}">>),
  F("solve", "oeT", <<"4", "3", "0">>), F("solve", "none", <<"null">>),
  F("ptrb", "elements_type", <<"\"mee\"", "\"sv\"", "null">>) >>

\* two ways of saying the same
Bases == 6
Same == <<"six", "six-far", "tuple-woe", "array-woe", "int-woe", "array-tol", "tuple-tol", "list-duty", "positional", "fun-eta", "fun-eta-r", "npfloat-eta", "int-oe0", "int-relaxed", "list-bounds",
          "mu-assigned", "integrator-assigned", "mu-assigned-set", "integrator-assigned-set", "mu-assigned-solved", "integrator-assigned-solved", "reposed", "relaxed-one", "mass-min-edge">>
\* base 1: the context of the option, or the plain one; the others are drawn, around special targets and with other options set
Cases == {c \in {Options[i] @@ [et |-> e, base |-> b] : i \in DOMAIN Options, e \in {"keplerian", "mee_with_a"}, b \in 1..5} : c.base = 1 \/ c.opt # "tf_max"}
         \union {Refusals[i] @@ [et |-> e, base |-> b] : i \in DOMAIN Refusals, e \in {"keplerian", "mee_with_a"}, b \in 1..4}
         \union {[form |-> "same", opt |-> Same[i], et |-> e, base |-> b] : i \in DOMAIN Same, e \in {"keplerian", "mee_with_a"}, b \in 1..Bases}

\* ---- what a run shows: its end -------------------------------------------------------
End(code, steps) == [code |-> code, steps |-> steps]
\* near the target: within tolerance at once, within the relaxed tolerance for relN steps, or never
OffEnd(off, tol, relf, relN) ==
  IF Le(off, tol) THEN End(1, 1) ELSE IF Le(off, Mul(tol, relf)) /\ relN <= 111 THEN End(2, relN) ELSE End(-2, 111)
NearEnd(tol, relf, relN) == OffEnd(Off, tol, relf, relN)
\* 0.10045 - 1e-4 n <= floor
MassEnd(floor) == LET n == CHOOSE n \in 1..12 : n = 12 \/ (Le(Sub("0.10045", Mul("1e-4", n)), floor) /\ (n = 1 \/ ~Le(Sub("0.10045", Mul("1e-4", n - 1)), floor)))
                  IN IF n = 12 THEN End(-2, 11) ELSE End(-1, n)
\* steps of 2003 until |tf| is reached
SlowEnd(tf) == End(-2, CHOOSE n \in 1..60 : Ge(Mul(2003, n), Abs(tf)) /\ Lt(Mul(2003, n - 1), Abs(tf)))
Clamp(x, lo, hi) == Min2(Max2(lo, x), hi)
\* rows of progress at verbosity 2: iterations 0, f, 2f, ... that did not end the run
RowCount(n, f) == Cardinality({i \in 0..(n - 1) : i % f = 0})
=============================================================================
