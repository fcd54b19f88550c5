---------------------------- MODULE SessionTrace ----------------------------
(***************************************************************************)
(* C18: a recorded session against module Session.  The map from keys to   *)
(* what was shown for them is learnt from the trace: it must be a function.*)
(***************************************************************************)
EXTENDS Session, TLC, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, objs, map, bad
vars == <<tr, l, objs, map, bad>>
Objs == 1..3
Init == tr \in 1..Len(Traces) /\ l = 1 /\ objs = [o \in Objs |-> Absent] /\ map = <<>> /\ bad = {}
R == Traces[tr]
Str3(k) == ToString(k)
Next ==
  /\ l <= Len(R.ops)
  /\ LET op == R.ops[l]
         o == op.o
         x == objs[o]
         y == Effect(x, op)
         V(clause, text) == <<l, "C18", clause, op.op \o (IF op.w = "" THEN "" ELSE "/" \o op.w) \o ": " \o text>>
         prev == IF l = 1 THEN [i \in Objs |-> ""] ELSE R.ops[l-1].dig
         solved == op.op = "solve" /\ CanSolve(x)
         key == y.shown
         known == {e \in {map[i] : i \in DOMAIN map} : e[1] = key}
     IN /\ bad' = bad
             \union (IF Refused(x, op) /\ ~op.refused THEN {IF op.op \in {"badset", "badsolve"} THEN <<l, "C21", "refusal", op.op \o op.w \o " accepted">>
                                                            ELSE V("ready", "solved although no problem was set")} ELSE {})
             \union (IF ~Refused(x, op) /\ op.refused /\ ~(op.op = "abort" /\ op.err = "UserFailure") THEN {V("crash", op.err)} ELSE {})
             \* other objects show what they showed
             \union {V("independent", "object " \o ToString(i) \o " changed") : i \in {i \in Objs \ {o} : op.dig[i] # prev[i]}}
             \* looking, posing and assigning do not change what is shown
             \union (IF op.op \in {"look", "set", "badset", "mu", "integ", "badsolve"} /\ op.dig[o] # prev[o] THEN {V("report", "recorded results changed")} ELSE {})
             \union (IF solved /\ ~op.refused /\ known # {} /\ \E e \in known : e[2] # op.dig[o]
                     THEN {V("repeat", "different results for the same problem " \o Str3(key))} ELSE {})
             \union (IF op.inputs # R.inputs THEN {V("inputs", "an array passed in was modified")} ELSE {})
             \union (IF ~op.held THEN {V("held", "results kept from an earlier solve changed")} ELSE {})
        /\ map' = IF solved /\ ~op.refused /\ key # <<Unknown>> /\ known = {} THEN Append(map, <<key, op.dig[o]>>) ELSE map
        /\ objs' = [objs EXCEPT ![o] = y]
        /\ l' = l + 1 /\ UNCHANGED tr
Spec == Init /\ [][Next]_vars
Count(S) == Cardinality(S)
Report == l > Len(R.ops) => PrintT("VERDICT " \o ToJson([id |-> R.id, v |-> bad,
             n |-> [ops |-> Len(R.ops), keys |-> Len(map), solves |-> Count({i \in DOMAIN R.ops : R.ops[i].op = "solve" /\ ~R.ops[i].refused}),
                    refused |-> Count({i \in DOMAIN R.ops : R.ops[i].refused})]]))
=============================================================================
