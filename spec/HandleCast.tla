----------------------------- MODULE HandleCast -----------------------------
(* Dynamic casts of handles (include/handle.hpp): a type hierarchy, and what *)
(* extraction and casting give for each type of held object.                 *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S,        \* handles
          Vals      \* values
VARIABLES kd,        \* handle -> type of the object held, "-" if the handle does not exist
          v,        \* handle -> value of the object
          out
vars == <<kd, v, out>>
SView == <<kd, v>>
Slots == 1..S
Reply(s, w) == [s |-> s, v |-> w]
\* the hierarchy: types of objects, direct bases ("V" and "J" are not related to the interface "I"), wrapped types
Objects == {"P", "Q", "R", "M", "WV", "WU", "X"}
Targets == {"P", "Q", "R", "M", "J", "V", "U"}
Bases == {<<"P", "I">>, <<"Q", "P">>, <<"R", "I">>, <<"M", "I">>, <<"M", "J">>, <<"WV", "I">>, <<"WV", "V">>,
          <<"WU", "I">>, <<"WU", "U">>, <<"U", "V">>, <<"X", "I">>}     \* an X has two different V parts: it is not a V,
Wraps == {<<"WV", "V">>, <<"WU", "U">>, <<"X", "V">>}                     \* but it wraps one
RECURSIVE Is(_, _)
Is(a, b) == a = b \/ \E p \in Bases : p[1] = a /\ Is(p[2], b)
Extracts(a, b) == Is(a, b) \/ <<a, b>> \in Wraps
Here(s) == kd[s] # "-"
Init == kd = [s \in Slots |-> "-"] /\ v = [s \in Slots |-> 0] /\ out = Reply("init", <<>>)
Stay == UNCHANGED <<kd, v>>
Skip == Stay /\ out' = Reply("skip", <<>>)
\* replies: the value found and that nothing was written to the error stream; or that something was
Good(s) == out' = Reply("ok", <<v[s], 0>>)
Bad == out' = Reply("badcast", <<1>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> kd' = [s \in Slots |-> "-"] /\ v' = [s \in Slots |-> 0] /\ out' = Reply("ok", <<>>)
    [] op[1] = "mk" -> IF Here(op[2]) THEN Skip ELSE kd' = [kd EXCEPT ![op[2]] = op[3]] /\ v' = [v EXCEPT ![op[2]] = op[4]] /\ out' = Reply("ok", <<>>)
    [] op[1] = "cp" -> IF Here(op[2]) \/ ~Here(op[3]) THEN Skip
                       ELSE kd' = [kd EXCEPT ![op[2]] = kd[op[3]]] /\ v' = [v EXCEPT ![op[2]] = v[op[3]]] /\ out' = Reply("ok", <<>>)
    [] op[1] = "del" -> IF ~Here(op[2]) THEN Skip ELSE kd' = [kd EXCEPT ![op[2]] = "-"] /\ v' = [v EXCEPT ![op[2]] = 0] /\ out' = Reply("ok", <<>>)
    [] op[1] = "set" -> IF ~Here(op[2]) THEN Skip ELSE kd' = kd /\ v' = [v EXCEPT ![op[2]] = op[3]] /\ out' = Reply("ok", <<>>)
    \* extract: from a constant handle, a handle, a handle of a constant object; type
    [] op[1] \in {"xc", "xm", "xk"} -> IF ~Here(op[2]) THEN Skip ELSE Stay /\ IF Extracts(kd[op[2]], op[3]) THEN Good(op[2]) ELSE Bad
    \* pointer extraction, and of the null pointer
    [] op[1] = "xp" -> IF ~Here(op[2]) THEN Skip
                       ELSE Stay /\ out' = IF Extracts(kd[op[2]], op[3]) THEN Reply("ok", <<v[op[2]]>>) ELSE Reply("null", <<>>)
    [] op[1] = "xpnull" -> Stay /\ out' = Reply("null", <<>>)
    \* cast: to a handle, to a handle of a constant object, from a class derived from handle
    [] op[1] \in {"ch", "cc", "cd"} -> IF ~Here(op[2]) THEN Skip ELSE Stay /\ IF Is(kd[op[2]], op[3]) THEN Good(op[2]) ELSE Bad
    \* cast, and change through the new handle: the change is seen there and not here
    [] op[1] = "cw" -> IF ~Here(op[2]) THEN Skip
                       ELSE Stay /\ IF Is(kd[op[2]], op[3]) THEN out' = Reply("ok", <<v[op[2]], op[4]>>) ELSE Bad
Kinds == {"mk", "cp", "del", "set", "xc", "xm", "xk", "xp", "xpnull", "ch", "cc", "cd", "cw"}
Writable == {"P", "Q", "R", "M"}
OpsOf(n) ==
  CASE n = "mk" -> {<<n, s, o, x>> : s \in Slots, o \in Objects, x \in Vals}
    [] n = "cp" -> {<<n, s, t>> : s \in Slots, t \in Slots}
    [] n = "del" -> {<<n, s>> : s \in Slots}
    [] n = "set" -> {<<n, s, x>> : s \in Slots, x \in Vals}
    [] n \in {"xc", "xm", "xk", "xp", "ch", "cc", "cd"} -> {<<n, s, t>> : s \in Slots, t \in Targets}
    [] n = "xpnull" -> {<<n, t>> : t \in Targets}
    [] n = "cw" -> {<<n, s, t, x>> : s \in Slots, t \in Writable, x \in Vals}
Next == \E n \in Kinds : \E op \in OpsOf(n) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [k |-> kd, v |-> v, bad |-> 0]
-----------------------------------------------------------------------------
Casts == {"xc", "xm", "xk", "xp", "ch", "cc", "cd", "cw"}
StepOK(op) ==
  /\ op[1] \in Casts => kd' = kd /\ v' = v
  /\ op[1] \in Casts /\ out'.s = "ok" => out'.v[1] = v[op[2]]
  /\ op[1] \in {"xc", "xm", "xk", "xp"} /\ Here(op[2]) /\ kd[op[2]] = op[3] => out'.s = "ok"       \* always the object's own type
  /\ op[1] \in Casts /\ Here(op[2]) /\ ~Is(kd[op[2]], op[3]) /\ <<kd[op[2]], op[3]>> \notin Wraps => out'.s \in {"badcast", "null"}
=============================================================================
