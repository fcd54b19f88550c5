------------------------------- MODULE CaseGen -------------------------------
(***************************************************************************)
(* The input space of the system, one family of cases per interface, as    *)
(* independent choices of named regimes.  TLC in simulation mode draws one *)
(* value per choice and prints the case; the harness turns the regimes     *)
(* into numbers and runs the real code on them.  IOEnv.FOCUS names a JSON  *)
(* file that restricts some choices (a check concentrates on what its      *)
(* property is about).                                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

CONSTANT Family

Angles == {"zero", "q1", "q2", "q3", "q4", "half", "quarter", "threequarter", "neg", "turns"}

\* a problem a user can pose, solved for real
Run == <<
  <<"et",     {"keplerian", "mee_with_a"}>>,
  <<"integ",  {"rk4", "rkf45"}>>,
  <<"step",   {"fixed", "fixed2", "fixed3", "sundman", "sundman2", "fixed-big", "sundman-big"}>>,
  <<"dir",    {"fwd", "fwd2", "fwd3", "back"}>>,
  <<"len",    {"many", "many2", "long", "one"}>>,
  <<"duty",   {"none", "none2", "long", "short", "onlyoff"}>>,
  <<"batt",   {"none", "none2", "drain", "cycle", "full", "start-empty", "overfull", "enough"}>>,
  <<"eff",    {"none", "abs", "rel", "both", "fun-abs", "fun-rel", "fun-both", "mixed", "tiny", "tiny-abs", "tiny-rel", "over", "fun-over"}>>,
  <<"ptrb",   {"none", "none2", "fun"}>>,
  <<"woe",    {"ones", "default", "random", "zero-some", "only-a", "only-last", "only-one", "zero"}>>,
  <<"target", {"far", "far2", "near", "five", "six", "same-a"}>>,
  <<"end",    {"time", "time2", "mass", "dry", "tol", "relaxed", "zero-time"}>>,
  <<"orbit",  {"low-e", "mid-e", "high-e", "retro", "flat", "any", "any2", "multiturn", "tiny-e", "low-peri", "circular", "aligned", "extreme"}>>,
  <<"mu",     {"one", "one2", "small", "big", "tiny", "earth"}>>,
  <<"par",    {"default", "random", "odd"}>>,
  <<"bounds", {"default", "default2", "tight", "wide", "beyond"}>>,
  <<"thrust", {"weak", "mid", "strong"}>>,
  <<"before", {"none", "none2", "same", "short", "other"}>>,
  <<"nans",   {"default", "default2", "zero", "few"}>>,
  <<"grid",   {"g5", "g1", "g2", "g8", "g13"}>>,
  <<"quiet",  {"v0", "v0b", "v1", "v2"}>> >>

\* an orbit and a chain of conversions
Conv == <<
  <<"a",   {"one", "small", "big"}>>,
  <<"e",   {"zero", "tiny", "low", "mid", "high", "extreme"}>>,
  <<"i",   {"zero", "tiny", "low", "mid", "right", "retro", "near-pi"}>>,
  <<"O",   Angles>>, <<"w", Angles>>, <<"t", Angles>>,
  <<"mu",  {"one", "earth", "small", "sun", "tiny", "huge"}>>,
  <<"from", {"kep", "sv", "mee", "meea"}>>,
  <<"hops", {3, 5, 8}>> >>

\* a state and an acceleration
Rates == <<
  <<"et", {"keplerian", "mee_with_a", "mee"}>>,
  <<"a", {"one", "small", "big"}>>, <<"e", {"tiny", "low", "mid", "high"}>>, <<"i", {"low", "mid", "right", "retro"}>>,
  <<"O", Angles>>, <<"w", Angles>>, <<"t", Angles>>, <<"mu", {"one", "earth", "small", "tiny", "huge"}>>,
  <<"u", {"none", "R", "T", "N", "any", "any2"}>>, <<"p", {"none", "any"}>> >>

\* one evaluation of the steering law
Law == <<
  <<"et", {"keplerian", "mee_with_a"}>>,
  <<"a", {"one", "small", "big"}>>, <<"e", {"tiny", "low", "mid", "mid2", "high"}>>, <<"i", {"low", "mid", "right", "retro"}>>,
  <<"O", Angles>>, <<"w", Angles>>, <<"t", Angles>>, <<"mu", {"one", "earth", "small", "tiny", "huge"}>>,
  <<"target", {"far", "far2", "near", "same-a", "turns", "opposite"}>>, <<"woe", {"ones", "random", "random2", "zeros", "one"}>> >>

\* one integrator step
Rk == <<
  <<"integ", {"rk4", "rkf45", "rkf45-default"}>>, <<"dim", {1, 2, 3, 6, 7}>>,
  <<"rhs", {"zero", "const", "time", "linear", "quadratic", "mixed", "mixed2"}>>,
  <<"h", {"tiny", "small", "mid", "large", "neg", "neglarge"}>>, <<"t", {"zero", "pos", "neg", "far"}>>,
  <<"tol", {"loose", "mid", "tight", "any"}>> >>

\* perturbing accelerations
Ptrb == <<
  <<"kind", {"third", "third2", "j2", "srp", "rtn", "full", "full2", "full3"}>>,
  <<"geom", {"near", "far", "beyond", "aligned", "axis", "any", "any2"}>>,
  <<"bodies", {"none", "empty", "moon", "both", "swapped", "sun", "other"}>>, <<"gms", {"pool", "given"}>>,
  <<"J2", {"on", "off"}>>, <<"SRP", {"on", "off"}>>, <<"et", {"keplerian", "mee_with_a"}>>,
  <<"units", {"km", "earth", "odd"}>>, <<"t", {"zero", "pos", "neg", "large"}>>, <<"obs", {"399", "499"}>>,
  <<"frame", {"J2000", "ECLIPJ2000"}>>, <<"eps", {"ref", "ref2"}>> >>

\* a state, a target, weights and tolerances
Judge == <<
  <<"et", {"keplerian", "mee_with_a"}>>,
  <<"how", {"all-in", "one-out", "one-out2", "edge", "edge-out", "exact", "random", "zero-tol", "half-turn",
              "mirror", "far", "swap", "turn-any", "relative", "quarter"}>>,
  <<"at", {"mid", "mid2", "small", "large", "small-el", "negative"}>>, <<"tols", {"fine", "fine2", "coarse"}>>,
  <<"el", {1, 2, 3, 4, 5}>>, <<"sign", {"plus", "minus", "both"}>>, <<"turns", {-2, -1, 0, 0, 1, 3}>>,
  <<"woe", {"ones", "random", "zero-el", "only-el", "zero-others", "zero"}>>,
  <<"relf", {1, 10, 3}>>, <<"anomaly", {"same", "far"}>> >>

\* element bounds
Bounds == <<
  <<"kind", {"inside", "below", "above", "mixed", "edge", "degenerate"}>>, <<"el", {1, 2, 3, 4, 5, 6}>>,
  <<"inf", {"none", "low", "high"}>>, <<"len", {5, 6}>> >>

\* plots of a short run
Plot == <<
  <<"what", {"elements", "elements-kep", "elements-peri", "elements-kep-peri", "elements-nomass", "battery", "controls", "controls-noanomaly",
             "efficiency", "Q", "traj2d", "traj2d-interp", "traj3d", "traj3d-nosphere", "pretty", "results", "settings", "progress"}>>,
  <<"units", {"default", "scaled"}>> >>

\* helpers
Helper == <<
  <<"what", {"sphere", "ellipsoid", "wrap", "axis2", "axis3", "wire-sphere", "wire-ellipsoid"}>>, <<"center", {"none", "given"}>>,
  <<"size", {"small", "one", "large"}>>, <<"n", {5, 12, 60}>>, <<"range", {"normal", "flat", "negative"}>> >>

\* exports of a short run
Export == <<
  <<"angles", {TRUE, FALSE}>>, <<"file", {TRUE, FALSE}>>, <<"units", {"none", "dict"}>>,
  <<"kind", {"quadratic", "linear", "cubic"}>>, <<"steps", {2, 7, 40}>>, <<"evals", {TRUE, FALSE}>> >>

Choices == CASE Family = "run" -> Run [] Family = "conv" -> Conv [] Family = "rates" -> Rates [] Family = "rk" -> Rk [] Family = "law" -> Law
             [] Family = "ptrb" -> Ptrb [] Family = "judge" -> Judge [] Family = "bounds" -> Bounds [] Family = "plot" -> Plot \o Run
             [] Family = "helper" -> Helper [] Family = "export" -> Export \o Run

Focus == JsonDeserialize(IOEnv.FOCUS)
Values(name, all) == IF name \in DOMAIN Focus THEN {Focus[name][j] : j \in DOMAIN Focus[name]} ELSE all

VARIABLES i, case
Init == i = 1 /\ case = [x \in {"family"} |-> Family]
Next == \/ /\ i <= Len(Choices)
           /\ \E v \in Values(Choices[i][1], Choices[i][2]) : case' = (Choices[i][1] :> v) @@ case
           /\ i' = i + 1
        \/ i = Len(Choices) + 1 /\ i' = i + 1 /\ UNCHANGED case
Spec == Init /\ [][Next]_<<i, case>>
Out == i > Len(Choices) + 1 => PrintT("CASE " \o ToJson(case))
=============================================================================
