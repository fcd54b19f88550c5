----------------------------- MODULE SessionGen -----------------------------
(* sessions with two objects, closed by a fresh reference solve of every key that was solved *)
EXTENDS Session, TLC, Json
CONSTANT Len0
VARIABLES objs, keys, log, ended
vars == <<objs, keys, log, ended>>
Objs == 1..2
Init == objs = [o \in Objs |-> Absent] /\ keys = {} /\ log = <<>> /\ ended = FALSE
Do(o, op) ==
  LET y == Effect(objs[o], op)
  IN /\ objs' = [objs EXCEPT ![o] = y]
     /\ log' = Append(log, [op EXCEPT !.o = o])
     /\ keys' = IF op.op = "solve" /\ CanSolve(objs[o]) /\ y.shown # <<Unknown>> THEN keys \union {y.shown} ELSE keys
Base == [op |-> "", o |-> 0, c |-> 0, m |-> 0, g |-> 0, q |-> 0, p |-> 0, e |-> 0, w |-> ""]
\* the simulator takes every successor with equal probability: k weighs the kinds of operation
Act ==
  /\ ~ended /\ Len(log) < Len0
  /\ \E o \in Objs, k \in 1..100 :
       LET any(name, vals) == vals[1 + ((k*7 + Len(log)*11) % Len(vals))]
           news == [Base EXCEPT !.op = "new", !.c = 1 + (k % 3), !.m = 1 + ((k + Len(log)) % 2), !.g = 1 + ((k \div 3) % 2), !.q = (k + Len(log)) % 3]
           which == any("w", <<"oe0", "mass", "woe">>)
       IN IF ~objs[o].live \/ k <= 4
       THEN Do(o, news)
       ELSE IF objs[o].prob = 0
       THEN IF k <= 70 THEN Do(o, [Base EXCEPT !.op = "set", !.p = 1 + (k % 3)])
            ELSE IF k <= 80 THEN Do(o, [Base EXCEPT !.op = "badset", !.w = which])
            ELSE Do(o, [Base EXCEPT !.op = any("op", <<"solve", "abort">>), !.e = 1])
       ELSE CASE k <= 16 -> Do(o, [Base EXCEPT !.op = "set", !.p = 1 + (k % 3)])
              [] k \in 17..19 -> Do(o, [Base EXCEPT !.op = "mu", !.m = 1 + (k % 2)])
              [] k \in 20..22 -> Do(o, [Base EXCEPT !.op = "integ", !.g = 1 + (k % 2)])
              [] k \in 23..25 -> Do(o, [Base EXCEPT !.op = "badset", !.w = which])
              [] k \in 26..28 -> Do(o, [Base EXCEPT !.op = "badsolve"])
              [] k \in 29..36 -> Do(o, [Base EXCEPT !.op = "abort", !.e = 1 + (k % 8)])
              [] k \in 37..68 \/ objs[o].shown = <<>> \/ objs[o].shown = <<Unknown>> -> Do(o, [Base EXCEPT !.op = "solve", !.e = 1 + (k % 3)])
              [] OTHER -> Do(o, [Base EXCEPT !.op = "look", !.w = Looks[1 + ((k + Len(log)) % Len(Looks))]])
  /\ UNCHANGED ended
RECURSIVE Refs(_)
Refs(K) == IF K = {} THEN <<>>
           ELSE LET x == CHOOSE x \in K : TRUE
                IN <<[Base EXCEPT !.op = "new", !.o = 3, !.c = x[1][1], !.m = x[1][2], !.g = x[1][3]],
                     [Base EXCEPT !.op = "set", !.o = 3, !.p = x[2]], [Base EXCEPT !.op = "solve", !.o = 3, !.e = x[3]]>> \o Refs(K \ {x})
End == ~ended /\ Len(log) = Len0 /\ ended' = TRUE /\ log' = log \o Refs(keys) /\ UNCHANGED <<objs, keys>>
Next == Act \/ End
Spec == Init /\ [][Next]_vars
Out == ended => PrintT("SESSION " \o ToJson([ops |-> log]))
=============================================================================
