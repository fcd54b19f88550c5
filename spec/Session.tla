------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A user's session with several solver objects: construct, assign, set a  *)
(* problem, solve, look at results.  What an object shows is a function of *)
(* the configuration, problem and thresholds of its last solve (a "key")   *)
(* and of nothing else: not of the order of calls, of earlier solves, of   *)
(* other objects, of how talkative it is, or of what was plotted.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

Unknown == -1
Absent == [live |-> FALSE, conf |-> <<>>, prob |-> 0, shown |-> <<>>]
\* conf = <<class, gravitational parameter, integrator>>; shown = <<>> (nothing yet), <<conf, prob, eta>>, or <<Unknown>>
New(c, m, g) == [live |-> TRUE, conf |-> <<c, m, g>>, prob |-> 0, shown |-> <<>>]
AssignMu(x, m) == [x EXCEPT !.conf[2] = m]
AssignInteg(x, g) == [x EXCEPT !.conf[3] = g]
Pose(x, p) == [x EXCEPT !.prob = p]
\* a refused problem: the documentation does not say what is left of the old one; without one there is still none
PoseRefused(x) == [x EXCEPT !.prob = IF @ = 0 THEN 0 ELSE Unknown]
CanSolve(x) == x.live /\ x.prob # 0
Solved(x, e) == [x EXCEPT !.shown = IF x.prob = Unknown THEN <<Unknown>> ELSE <<x.conf, x.prob, e>>]
\* the user's own threshold function failed in the middle of the solve
Aborted(x) == [x EXCEPT !.shown = <<Unknown>>]
Looks == <<"elements", "kepler", "battery", "controls", "efficiency", "Q", "traj2d", "traj3d", "pretty", "results", "settings", "dict", "angles",
          "file", "cart", "interp">>

\* the effect of an operation on the object it is addressed to
Effect(x, op) ==
  CASE op.op = "new" -> New(op.c, op.m, op.g)
    [] op.op = "mu" -> AssignMu(x, op.m)
    [] op.op = "integ" -> AssignInteg(x, op.g)
    [] op.op = "set" -> Pose(x, op.p)
    [] op.op = "badset" -> PoseRefused(x)
    [] op.op = "solve" -> IF CanSolve(x) THEN Solved(x, op.e) ELSE x
    [] op.op = "abort" -> IF CanSolve(x) THEN Aborted(x) ELSE x
    [] op.op = "badsolve" -> x
    [] op.op = "look" -> x
\* which operations must be refused
Refused(x, op) == op.op \in {"badset", "badsolve"} \/ (op.op \in {"solve", "abort"} /\ ~CanSolve(x))
=============================================================================
