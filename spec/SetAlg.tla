------------------------------- MODULE SetAlg -------------------------------
(* Set variables under set algebra. (include/container.hpp: Set, join,       *)
(* intersection, difference, remove, restrict, subset, disjoint, contains,   *)
(* apply)                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S, U     \* set variables 1..S over elements 1..U
VARIABLES a, out
vars == <<a, out>>
SView == a
Slots == 1..S
Elems == 1..U
Reply(s, v) == [s |-> s, v |-> v]
B(p) == IF p THEN 1 ELSE 0
Range(q) == {q[k] : k \in 1..Len(q)}
Sorted(s) == SelectSeq([x \in 1..(U + 11) |-> x - 1], LAMBDA x : x \in s)
\* functions applied to elements; 2 and 3 are not injective
F(f, x) == CASE f = 1 -> x + 10 [] f = 2 -> x % 2 [] f = 3 -> 5

Init == a = [i \in Slots |-> {}] /\ out = Reply("init", <<>>)
Set(i, s) == a' = [a EXCEPT ![i] = s] /\ out' = Reply("ok", <<>>)
Ask(v) == a' = a /\ out' = Reply("ok", v)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> a' = [i \in Slots |-> {}] /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"vec", "range", "init", "initconv", "conv", "setconv", "setexpl"} -> Set(op[2], Range(op[3]))
    [] op[1] = "copy" -> Set(op[2], a[op[3]])
    \* in place
    [] op[1] = "ins" -> Set(op[2], a[op[2]] \cup {op[3]})
    [] op[1] = "adjoin" -> Set(op[2], a[op[2]] \cup a[op[3]])
    [] op[1] = "rem1" -> Set(op[2], a[op[2]] \ {op[3]})
    [] op[1] \in {"rem", "frem"} -> Set(op[2], a[op[2]] \ a[op[3]])
    [] op[1] = "remvec" -> Set(op[2], a[op[2]] \ Range(op[3]))
    [] op[1] \in {"res", "fres"} -> Set(op[2], a[op[2]] \cap a[op[3]])
    \* functions giving a new set
    [] op[1] = "join" -> Set(op[2], a[op[3]] \cup a[op[4]])
    [] op[1] = "inter" -> Set(op[2], a[op[3]] \cap a[op[4]])
    [] op[1] = "intervec" -> Set(op[2], a[op[3]] \cap Range(op[4]))
    [] op[1] = "diff" -> Set(op[2], a[op[3]] \ a[op[4]])
    \* queries: as a member, as a function
    [] op[1] = "has" -> Ask(<<B(op[3] \in a[op[2]]), B(op[3] \in a[op[2]])>>)
    [] op[1] = "sub" -> Ask(<<B(a[op[3]] \subseteq a[op[2]]), B(a[op[2]] \subseteq a[op[3]])>>)
    [] op[1] = "disj" -> Ask(<<B(a[op[2]] \cap a[op[3]] = {}), B(a[op[2]] \cap a[op[3]] = {})>>)
    [] op[1] = "disjvec" -> Ask(<<B(a[op[2]] \cap Range(op[3]) = {}), B(a[op[2]] \cap Range(op[3]) = {})>>)
    [] op[1] = "apply" -> Ask(Sorted({F(op[3], x) : x \in a[op[2]]}))
    [] op[1] = "list" -> Ask(Sorted(a[op[2]]))      \* explicit conversion to a list
Seqs == UNION {[1..n -> IF U > 100 THEN {1} ELSE Elems] : n \in 0..2} \cup {<<1, 2, 1>>, <<3, 1, 3, 2>>}
Some == {<<>>, <<1>>, <<2, 1>>, <<3, 3>>, <<3, 1, 2, 3>>}
Kinds == {"vec", "range", "init", "initconv", "conv", "setconv", "setexpl", "copy", "ins", "adjoin", "rem1", "rem", "frem", "remvec", "res", "fres",
          "join", "inter", "intervec", "diff", "has", "sub", "disj", "disjvec", "apply", "list"}
OpsOf(k) ==
  CASE k = "vec" -> {<<k, i, q>> : i \in Slots, q \in Seqs}
    [] k \in {"range", "init", "initconv", "conv", "setconv", "setexpl"} -> {<<k, i, q>> : i \in Slots, q \in Some}
    [] k \in {"copy", "adjoin", "rem", "frem", "res", "fres", "sub", "disj"} -> {<<k, i, j>> : i \in Slots, j \in Slots}
    [] k \in {"ins", "rem1", "has"} -> {<<k, i, x>> : i \in Slots, x \in Elems}
    [] k \in {"remvec", "disjvec"} -> {<<k, i, q>> : i \in Slots, q \in Some \cup {<<x>> : x \in Elems}}
    [] k = "intervec" -> {<<k, i, j, q>> : i \in Slots, j \in Slots, q \in Some}
    [] k \in {"join", "inter", "diff"} -> {<<k, i, j, h>> : i \in Slots, j \in Slots, h \in Slots}
    [] k = "apply" -> {<<k, i, f>> : i \in Slots, f \in 1..3}
    [] k = "list" -> {<<k, i>> : i \in Slots}
\* random behaviours over large sets
SomeElems(n) == [x \in 1..n |-> RandomElement(Elems)] \o <<>>
Size(zz) == RandomElement({0, 1, 2, 3, 7, 8, 9, 16, 17, 33, U, 2 * U})
Long(k) ==
  LET i == RandomElement(Slots)  j == RandomElement(Slots)  h == RandomElement(Slots)  x == RandomElement(Elems)
      known == IF a[i] # {} /\ RandomElement(1..2) = 1 THEN RandomElement(a[i]) ELSE x
  IN CASE k \in {"vec", "range", "conv", "setconv", "setexpl"} -> {<<k, i, SomeElems(Size(0))>>}
       [] k \in {"init", "initconv"} -> {<<k, i, SomeElems(RandomElement(0..4))>>}
       [] k \in {"copy", "adjoin", "rem", "frem", "res", "fres", "sub", "disj"} -> {<<k, i, j>>}
       [] k \in {"ins", "rem1", "has"} -> {<<k, i, known>>}
       [] k \in {"remvec", "disjvec"} -> {<<k, i, SomeElems(Size(0))>>}
       [] k = "intervec" -> {<<k, i, j, SomeElems(Size(0))>>}
       [] k \in {"join", "inter", "diff"} -> {<<k, i, j, h>>}
       [] k = "apply" -> {<<k, i, RandomElement(1..3)>>}
       [] k = "list" -> {<<k, i>>}
Pick(k) == IF U > 6 THEN Long(k) ELSE OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [a |-> [i \in Slots |-> Sorted(a[i])], bad |-> 0]
-----------------------------------------------------------------------------
\* Stated by membership, element by element.
StepOK(op) ==
  op[1] \notin {"new", "end"} =>
    /\ \A i \in Slots \ {op[2]} : a'[i] = a[i]
    /\ op[1] = "diff" => \A x \in Elems : x \in a'[op[2]] <=> (x \in a[op[3]] /\ x \notin a[op[4]])
    /\ op[1] \in {"res", "fres"} => \A x \in Elems : x \in a'[op[2]] <=> (x \in a[op[2]] /\ x \in a[op[3]])
    /\ op[1] \in {"rem", "frem"} => a'[op[2]] \cap a[op[3]] = {} /\ a'[op[2]] \subseteq a[op[2]]
    /\ op[1] \in {"has", "sub", "disj", "disjvec", "apply", "list"} => a' = a
=============================================================================
