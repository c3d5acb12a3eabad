-------------------------------- MODULE Conv --------------------------------
(* Conversions between containers, and classification of elements, as        *)
(* functions on sequences. (include/container.hpp: make_array, make_list,    *)
(* make_set, converting constructors, unique_elements, duplicate_elements;   *)
(* include/array.hpp: complement)                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS V,       \* values 1..V
          M,       \* sequences up to this length
          C        \* complements of index lists below 0..C
VARIABLES calls, out
vars == <<calls, out>>
SView == calls
Reply(s, v) == [s |-> s, v |-> v]
Range(q) == {q[k] : k \in 1..Len(q)}
Sorted(s) == IF s = {} THEN <<>> ELSE LET m == CHOOSE x \in s : \A y \in s : y <= x IN SelectSeq([x \in 1..(m + 1) |-> x - 1], LAMBDA x : x \in s)
Count(q, x) == Cardinality({k \in 1..Len(q) : q[k] = x})
B(p) == IF p THEN 1 ELSE 0

\* names of conversions, by the order of the result and whether the element types differ
Single == {"array1", "list1"}                                            \* from one value
Ordered == {"arrayvec", "arrayarray", "listvec", "listarray", "arraycopy", "linkedstd"}
OrderedDiff == {"arrayconv", "arrayexpl", "listconv", "listexpl", "linkedlist", "linkedlinked"}
ToSet == {"setvec", "setcopy"}                                           \* result increasing, without repetition
ToSetDiff == {"setconv"}
FromSet == {"listset", "setlist"}                                        \* argument taken as a set first
FromSetDiff == {"setsetconv", "setsetexpl"}

Result(op) ==
  LET q == op[2]
  IN CASE op[1] \in Single -> <<q, <<>> >>
       [] op[1] \in Ordered -> <<q, <<>> >>
       [] op[1] \in OrderedDiff -> <<q, q>>                \* the elements converted, in order: each once
       [] op[1] \in ToSet -> <<Sorted(Range(q)), <<>> >>
       [] op[1] \in ToSetDiff -> <<Sorted(Range(q)), q>>
       [] op[1] \in FromSet -> <<Sorted(Range(q)), <<>> >>
       [] op[1] \in FromSetDiff -> <<Sorted(Range(q)), Sorted(Range(q))>>
       [] op[1] = "unique" -> << <<B(\A x \in Range(q) : Count(q, x) = 1)>>, <<>> >>
       [] op[1] = "dups" -> <<Sorted({x \in Range(q) : Count(q, x) > 1}), <<>> >>
       [] op[1] = "compl" -> <<LET given == Range(q) IN SelectSeq([x \in 1..op[3] |-> x - 1], LAMBDA x : x \notin given), <<>> >>
Init == calls = 0 /\ out = Reply("init", <<>>)
Do(op) == calls' = 0 /\ out' = IF op[1] \in {"new", "end"} THEN Reply("ok", <<>>) ELSE Reply("ok", Result(op))
Seqs == UNION {[1..n -> 1..V] : n \in 0..M}
Kinds == Single \cup Ordered \cup OrderedDiff \cup ToSet \cup ToSetDiff \cup FromSet \cup FromSetDiff \cup {"unique", "dups", "compl"}
OpsOf(k) == IF k = "compl" THEN UNION {{<<k, Sorted(s), n>> : s \in SUBSET (0..(n - 1))} : n \in 0..C}
            ELSE IF k \in Single THEN {<<k, <<x>> >> : x \in 1..V}
            ELSE {<<k, q>> : q \in Seqs}
\* n different values in any order, possibly with one of them repeated somewhere
RECURSIVE Distinct(_, _)
Distinct(n, X) == IF n = 0 THEN <<>> ELSE LET x == RandomElement(X) IN <<x>> \o Distinct(n - 1, X \ {x})
Nearly(n) == LET q == Distinct(n, 1..V)
             IN IF n < 2 \/ RandomElement(1..3) = 1 THEN q ELSE [q EXCEPT ![RandomElement(1..n)] = q[RandomElement(1..n)]]
\* very long sequences over few values
VastLen(zz) == RandomElement({1000, 1024, 1025, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 70000})
VastSeq(n) == LET x == RandomElement(1..V) y == RandomElement(1..n) z == RandomElement(1..n)
              IN [i \in 1..n |-> IF i = y THEN 1 ELSE IF i = z THEN 2 ELSE 3 + (((i * x) + (i \div 256)) % (V - 2))] \o <<>>
Pick(k) == IF M > 1000
           THEN IF k = "compl" THEN {LET n == VastLen(0) IN <<k, SelectSeq([x \in 1..n |-> x - 1], LAMBDA x : RandomElement(1..3) > 1), n>>}
                ELSE {<<k, IF k \in Single THEN <<V>> ELSE VastSeq(VastLen(0))>>}
           ELSE IF k = "compl" THEN {LET n == RandomElement(1..C) IN <<k, Sorted({x \in 0..(n-1) : RandomElement(BOOLEAN)}), n>>}
           ELSE IF k \in Single THEN {<<k, <<x>> >> : x \in 1..V}
           ELSE {<<k, IF RandomElement(BOOLEAN) THEN LET n == RandomElement(0..M) IN [i \in 1..n |-> RandomElement(1..V)] ELSE Nearly(RandomElement(0..(IF M < V THEN M ELSE V)))>>}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [bad |-> 0]
-----------------------------------------------------------------------------
StepOK(op) ==
  LET r == out'.v[1]
  IN /\ op[1] = "dups" => (r = <<>>) = (\A i, j \in 1..Len(op[2]) : op[2][i] = op[2][j] => i = j)
     /\ op[1] = "compl" => Range(r) \cap Range(op[2]) = {} /\ Range(r) \cup Range(op[2]) = 0..(op[3] - 1) /\ Len(r) = op[3] - Len(op[2])
     /\ op[1] \in ToSet \cup ToSetDiff \cup FromSet \cup FromSetDiff => Range(r) = Range(op[2]) /\ \A i, j \in 1..Len(r) : i < j => r[i] < r[j]
=============================================================================
