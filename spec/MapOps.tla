------------------------------- MODULE MapOps -------------------------------
(* Map variables: existing entries are kept. (include/container.hpp: Map,    *)
(* join, insert, restrict_keys)                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S, K, Vals   \* map variables 1..S, keys 1..K, values (0 is the default value)
VARIABLES a,           \* variable -> key -> value, -1 where there is none
          out
vars == <<a, out>>
SView == a
Slots == 1..S
Keys == 1..K
Nil == -1
Empty == [k \in Keys |-> Nil]
Reply(s, v) == [s |-> s, v |-> v]
B(p) == IF p THEN 1 ELSE 0
Range(q) == {q[i] : i \in 1..Len(q)}
Dom(m) == {k \in Keys : m[k] # Nil}
KeysOf(m) == SelectSeq([x \in Keys |-> x], LAMBDA x : m[x] # Nil)      \* in increasing order of keys
Values(m) == SelectSeq([x \in Keys |-> m[x]], LAMBDA v : v # Nil)
First(m, n) == [k \in Keys |-> IF m[k] # Nil THEN m[k] ELSE n[k]]      \* the first operand wins
\* a map from a list of key, value, key, value, ...: the first entry of a key wins
From(q) == [k \in Keys |-> LET at == {i \in 1..(Len(q) \div 2) : q[2 * i - 1] = k}
                           IN IF at = {} THEN Nil ELSE q[2 * (CHOOSE i \in at : \A j \in at : i <= j)]]

Init == a = [i \in Slots |-> Empty] /\ out = Reply("init", <<>>)
Set(i, m) == a' = [a EXCEPT ![i] = m] /\ out' = Reply("ok", <<>>)
Ask(v) == a' = a /\ out' = Reply("ok", v)
Throw == a' = a /\ out' = Reply("throw", <<>>)
Do(op) ==
  LET m == a[op[2]]
  IN CASE op[1] \in {"new", "end"} -> a' = [i \in Slots |-> Empty] /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"make", "conv"} -> Set(op[2], From(op[3]))
    [] op[1] = "copy" -> Set(op[2], a[op[3]])
    \* adding what is missing
    [] op[1] \in {"insp", "inskv", "insstd"} -> Set(op[2], IF m[op[3]] = Nil THEN [m EXCEPT ![op[3]] = op[4]] ELSE m)
    [] op[1] = "fins" -> /\ a' = [a EXCEPT ![op[2]] = IF m[op[3]] = Nil THEN [m EXCEPT ![op[3]] = op[4]] ELSE m]
                         /\ out' = Reply("ok", <<IF m[op[3]] = Nil THEN op[4] ELSE m[op[3]]>>)
    [] op[1] = "adjoin" -> Set(op[2], First(m, a[op[3]]))
    [] op[1] = "join" -> Set(op[2], First(a[op[3]], a[op[4]]))
    \* changing and reading values
    [] op[1] = "put" -> Set(op[2], [m EXCEPT ![op[3]] = op[4]])                        \* m[k] = v
    [] op[1] = "idx" -> /\ a' = [a EXCEPT ![op[2]] = IF m[op[3]] = Nil THEN [m EXCEPT ![op[3]] = 0] ELSE m]
                        /\ out' = Reply("ok", <<IF m[op[3]] = Nil THEN 0 ELSE m[op[3]]>>)   \* m[k] of a map that may be changed
    [] op[1] = "setval" -> IF m[op[3]] = Nil THEN Throw ELSE Set(op[2], [m EXCEPT ![op[3]] = op[4]])   \* m.value(k) = v
    [] op[1] \in {"cidx", "get", "val", "cval"} -> IF m[op[3]] = Nil THEN Throw ELSE Ask(<<m[op[3]]>>)
    [] op[1] = "has" -> Ask(<<B(m[op[3]] # Nil)>>)
    [] op[1] = "keys" -> Ask(KeysOf(m))
    [] op[1] = "vals" -> Ask(Values(m))
    \* removing
    [] op[1] = "remk" -> Set(op[2], [k \in Keys |-> IF k \in Range(op[3]) THEN Nil ELSE m[k]])
    [] op[1] = "remown" -> Set(op[2], [k \in Keys |-> IF a[op[3]][k] # Nil THEN Nil ELSE m[k]])       \* the keys of a map
    [] op[1] = "resk" -> Set(op[2], [k \in Keys |-> IF k \in Range(op[4]) THEN a[op[3]][k] ELSE Nil])
Made == {q \in {<<>>, <<1, 1>>, <<2, 2, 1, 1>>, <<1, 2, 2, 1, 1, 1>>, <<3, 1, 2, 1>>} : \A i \in 1..Len(q) : i % 2 = 1 => q[i] <= K}
KeySeqs == {q \in {<<>>, <<1>>, <<2, 3>>, <<3, 1>>, <<3, 2, 1>>} : Range(q) \subseteq Keys}
Kinds == {"make", "conv", "copy", "insp", "inskv", "insstd", "fins", "adjoin", "join", "put", "idx", "setval", "cidx", "get", "val", "cval",
          "has", "keys", "vals", "remk", "remown", "resk"}
OpsOf(k) ==
  CASE k \in {"make", "conv"} -> {<<k, i, q>> : i \in Slots, q \in Made}
    [] k \in {"copy", "adjoin", "remown"} -> {<<k, i, j>> : i \in Slots, j \in Slots}
    [] k \in {"insp", "inskv", "insstd", "fins", "put", "setval"} -> {<<k, i, x, v>> : i \in Slots, x \in Keys, v \in Vals}
    [] k = "join" -> {<<k, i, j, h>> : i \in Slots, j \in Slots, h \in Slots}
    [] k \in {"idx", "cidx", "get", "val", "cval", "has"} -> {<<k, i, x>> : i \in Slots, x \in Keys}
    [] k \in {"keys", "vals"} -> {<<k, i>> : i \in Slots}
    [] k = "remk" -> {<<k, i, q>> : i \in Slots, q \in KeySeqs}
    [] k = "resk" -> {<<k, i, j, q>> : i \in Slots, j \in Slots, q \in KeySeqs}
\* random behaviours over large maps
SomeKeys(n) == [x \in 1..n |-> RandomElement(Keys)] \o <<>>
Long(k) ==
  LET i == RandomElement(Slots)  j == RandomElement(Slots)  h == RandomElement(Slots)  x == RandomElement(Keys)  v == RandomElement(Vals)
      known == IF Dom(a[i]) # {} /\ RandomElement(1..2) = 1 THEN RandomElement(Dom(a[i])) ELSE x
  IN CASE k \in {"make", "conv"} -> LET n == RandomElement({0, 1, 2, 6, 7, 8, 12, K}) IN {<<k, i, [y \in 1..(2 * n) |-> IF y % 2 = 1 THEN RandomElement(Keys) ELSE RandomElement(Vals)] \o <<>>>>}
       [] k \in {"copy", "adjoin", "remown"} -> {<<k, i, j>>}
       [] k \in {"insp", "inskv", "insstd", "fins", "put", "setval"} -> {<<k, i, known, v>>}
       [] k = "join" -> {<<k, i, j, h>>}
       [] k \in {"idx", "cidx", "get", "val", "cval", "has"} -> {<<k, i, known>>}
       [] k \in {"keys", "vals"} -> {<<k, i>>}
       [] k = "remk" -> {<<k, i, SomeKeys(RandomElement({0, 1, 2, 5, K}))>>}
       [] k = "resk" -> {<<k, i, j, SomeKeys(RandomElement({0, 1, 3, 7, K, 2 * K}))>>}
Pick(k) == IF K > 4 THEN Long(k) ELSE OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [a |-> [i \in Slots |-> [n |-> Cardinality(Dom(a[i])), k |-> KeysOf(a[i]), v |-> Values(a[i])]], bad |-> 0]
-----------------------------------------------------------------------------
Keeping == {"insp", "inskv", "insstd", "fins", "adjoin", "idx", "cidx", "get", "val", "cval", "has", "keys", "vals"}
StepOK(op) ==
  op[1] \notin {"new", "end"} =>
    /\ \A i \in Slots \ {op[2]} : a'[i] = a[i]
    /\ op[1] \in Keeping => \A k \in Keys : a[op[2]][k] # Nil => a'[op[2]][k] = a[op[2]][k]
    /\ out'.s = "throw" => a' = a
    /\ op[1] = "adjoin" => Dom(a'[op[2]]) = Dom(a[op[2]]) \cup Dom(a[op[3]])
    /\ op[1] \in {"remk", "remown"} => \A k \in Dom(a'[op[2]]) : a'[op[2]][k] = a[op[2]][k]
=============================================================================
