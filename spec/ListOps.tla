------------------------------ MODULE ListOps ------------------------------
(* Lists and linked lists as sequences, built by appending, concatenating,   *)
(* catenating and applying functions. (include/container.hpp: List,          *)
(* LinkedList, catenate, apply, elementwise)                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,       \* list variables 1..S
          M,       \* lists are not grown beyond this by generated behaviours
          Vals,
          Linked   \* TRUE: linked lists, which have fewer operations
VARIABLES a,       \* the sequence each variable holds
          out
vars == <<a, out>>
SView == a
Slots == 1..S
Reply(s, v) == [s |-> s, v |-> v]
Set(i, e) == a' = [a EXCEPT ![i] = e] /\ out' = Reply("ok", <<>>)
\* the functions applied, by number; each call is logged
\* (the last ones give a different result at each call: k is the number of the call)
F1(f, x, k) == CASE f = 1 -> 2 * x + 1 [] f = 2 -> 7 [] f = 3 -> -x [] f = 4 -> 1000 * x + k
F2(f, x, y, k) == CASE f = 1 -> 10 * x + y [] f = 2 -> x - y [] f = 3 -> 1000 * (10 * x + y) + k
Map1(f, e) == [k \in 1..Len(e) |-> F1(f, e[k], k)]

Init == a = [i \in Slots |-> <<>>] /\ out = Reply("init", <<>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> a' = [i \in Slots |-> <<>>] /\ out' = Reply("ok", <<>>)
    \* making lists
    [] op[1] \in {"of", "copyval"} -> Set(op[2], <<op[3]>>)                          \* from one value
    [] op[1] = "rep" -> Set(op[2], [k \in 1..op[3] |-> op[4]])                       \* from a count and a value
    [] op[1] = "def" -> Set(op[2], [k \in 1..op[3] |-> 0])                           \* from a count
    [] op[1] \in {"vec", "init", "conv", "expl", "range"} -> Set(op[2], op[3])       \* from other sequences
    [] op[1] = "copy" -> Set(op[2], a[op[3]])
    \* growing them
    [] op[1] = "app" -> Set(op[2], Append(a[op[2]], op[3]))
    [] op[1] = "appown" -> IF op[3] > Len(a[op[2]]) THEN a' = a /\ out' = Reply("skip", <<>>)
                           ELSE Set(op[2], Append(a[op[2]], a[op[2]][op[3]]))        \* one of its own elements
    [] op[1] \in {"applist", "conc"} -> Set(op[2], a[op[2]] \o a[op[3]])             \* also with itself
    [] op[1] = "cat" -> Set(op[2], a[op[3]] \o a[op[4]])
    [] op[1] = "cat1" -> Set(op[2], Append(a[op[3]], op[4]))
    \* functions: results in order, one call per position in order
    [] op[1] \in {"apply", "elem"} -> a' = a /\ out' = Reply("ok", <<Map1(op[3], a[op[2]]), a[op[2]]>>)
    [] op[1] = "elem2" ->
         LET x == a[op[2]]  y == a[op[3]]
         IN  IF Len(x) # Len(y) THEN a' = a /\ out' = Reply("skip", <<>>)
             ELSE a' = a /\ out' = Reply("ok", <<[k \in 1..Len(x) |-> F2(op[4], x[k], y[k], k)],
                                               [k \in 1..(2 * Len(x)) |-> IF k % 2 = 1 THEN x[(k+1) \div 2] ELSE y[k \div 2]]>>)
Seqs == UNION {[1..n -> Vals] : n \in 0..2} \cup (IF 2 \in Vals THEN {<<1, 2, 3>>, <<3, 1, 1, 2>>} ELSE {<<1, 0, 1>>, <<0, 1, 1, 0>>})
Both == {"of", "rep", "conv", "range", "copy", "app", "appown", "applist", "conc"}
Kinds == IF Linked THEN Both \cup {"def"} ELSE Both \cup {"copyval", "vec", "init", "expl", "cat", "cat1", "apply", "elem", "elem2"}
OpsOf(k) ==
  CASE k \in {"of", "copyval", "app"} -> {<<k, i, x>> : i \in Slots, x \in Vals}
    [] k = "rep" -> {<<k, i, n, x>> : i \in Slots, n \in 0..3, x \in Vals}
    [] k = "def" -> {<<k, i, n>> : i \in Slots, n \in 0..2}
    [] k \in {"vec", "init", "conv", "expl", "range"} -> {<<k, i, s>> : i \in Slots, s \in Seqs}
    [] k \in {"copy", "applist", "conc"} -> {<<k, i, j>> : i \in Slots, j \in Slots}
    [] k = "appown" -> UNION {{<<k, i, n>> : n \in 1..Len(a[i])} : i \in Slots}
    [] k = "cat" -> {<<k, i, j, h>> : i \in Slots, j \in Slots, h \in Slots}
    [] k = "cat1" -> {<<k, i, j, x>> : i \in Slots, j \in Slots, x \in Vals}
    [] k \in {"apply", "elem"} -> {<<k, i, f>> : i \in Slots, f \in 1..4}
    [] k = "elem2" -> {o \in {<<k, i, j, f>> : i \in Slots, j \in Slots, f \in 1..3} : Len(a[o[2]]) = Len(a[o[3]])}
\* random behaviours over long lists: lengths often next to a power of two, growing only while there is room
Room(n) == {x \in {0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300,
                 1000, 1024, 1025, 4096, 4097, 32768, 65535, 65536, 65537, 70000} : x <= n /\ (n <= 300 \/ x < 3 \/ x >= 1000)}
Chosen(n) == [x \in 1..n |-> RandomElement(Vals)] \o <<>>
Long(k) ==
  LET i == RandomElement(Slots)  j == RandomElement(Slots)  h == RandomElement(Slots)  v == RandomElement(Vals)
  IN CASE k \in {"of", "copyval"} -> {<<k, i, v>>}
       [] k = "app" -> {o \in {<<k, i, v>>} : Len(a[i]) < M}
       [] k = "rep" -> {<<k, i, RandomElement(Room(M)), v>>}
       [] k = "def" -> {<<k, i, RandomElement(Room(M))>>}
       [] k \in {"vec", "conv", "expl", "range"} -> {<<k, i, Chosen(RandomElement(Room(M)))>>}
       [] k = "init" -> {<<k, i, Chosen(RandomElement(0..4))>>}
       [] k = "copy" -> {<<k, i, j>>}
       [] k \in {"applist", "conc"} -> {o \in {<<k, i, j>>} : Len(a[i]) + Len(a[j]) <= M}
       [] k = "appown" -> {<<k, i, RandomElement(1..Len(a[i]))>> : x \in {y \in {1} : Len(a[i]) \in 1..(M - 1)}}
       [] k = "cat" -> {o \in {<<k, i, j, h>>} : Len(a[j]) + Len(a[h]) <= M}
       [] k = "cat1" -> {o \in {<<k, i, j, v>>} : Len(a[j]) < M}
       [] k \in {"apply", "elem"} -> {<<k, i, RandomElement(1..4)>>}
       [] k = "elem2" -> {<<k, i, RandomElement({x \in Slots : Len(a[x]) = Len(a[i])}), RandomElement(1..3)>>}
Pick(k) == IF M > 40 THEN Long(k) ELSE OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Short == \A i \in Slots : Len(a[i]) <= M
Obs == [a |-> [i \in Slots |-> [n |-> Len(a[i]), e |-> a[i]]], bad |-> 0]
-----------------------------------------------------------------------------
Growing == {"app", "appown", "applist", "conc"}
StepOK(op) ==
  op[1] \notin {"new", "end"} =>
    /\ \A i \in Slots \ {op[2]} : a'[i] = a[i]
    \* growing keeps what was there and adds exactly what was asked for
    /\ op[1] \in Growing /\ out'.s = "ok" =>
         LET e == a[op[2]]  f == a'[op[2]]
             more == CASE op[1] = "app" -> <<op[3]>> [] op[1] = "appown" -> <<e[op[3]]>> [] OTHER -> a[op[3]]
         IN  /\ Len(f) = Len(e) + Len(more)
             /\ \A k \in 1..Len(f) : f[k] = IF k <= Len(e) THEN e[k] ELSE more[k - Len(e)]
    /\ op[1] \in {"apply", "elem", "elem2"} => a' = a
=============================================================================
