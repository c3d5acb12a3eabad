------------------------------ MODULE CodedVar ------------------------------
(* Coded variants (include/variant.hpp, variant.inl.hpp): a variant carries   *)
(* the code of one of n alternatives; visiting it calls the visitor with an  *)
(* object of that alternative, or aborts.                                    *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Slots,    \* variables
          MaxN      \* greatest number of alternatives
VARIABLES x,        \* variable -> [l |-> kind of code, n |-> alternatives, c |-> code], n = -1 if it does not exist
          out
vars == <<x, out>>
SView == x
Reply(s, v) == [s |-> s, v |-> v]
Kinds_ == {"enum", "char", "int"}
Alts == 1..18          \* 17 and 18 are never alternatives of any variant
\* the codes of the alternatives: consecutive, scattered characters, scattered numbers of either sign
Code(l, i) == CASE l = "enum" -> i - 1
                [] l = "char" -> 97 + ((7 * i) % 26)
                [] l = "int" -> ((37 * i) % 101) - 50
None == [l |-> "enum", n |-> -1, c |-> 0]
Here(s) == x[s].n >= 0
\* the alternative a code names, 0 if none
Named(l, n, c) == IF \E i \in 1..n : Code(l, i) = c THEN CHOOSE i \in 1..n : Code(l, i) = c ELSE 0
Init == x = [s \in 1..Slots |-> None] /\ out = Reply("init", <<>>)
Skip == x' = x /\ out' = Reply("skip", <<>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> x' = [s \in 1..Slots |-> None] /\ out' = Reply("ok", <<>>)
    \* variable, kind, alternatives, and: the position of the code / of the alternative / a code no alternative at all has
    [] op[1] = "code" -> IF Here(op[2]) THEN Skip ELSE x' = [x EXCEPT ![op[2]] = [l |-> op[3], n |-> op[4], c |-> Code(op[3], op[5])]] /\ out' = Reply("ok", <<>>)
    [] op[1] = "alt" -> IF Here(op[2]) THEN Skip ELSE x' = [x EXCEPT ![op[2]] = [l |-> op[3], n |-> op[4], c |-> Code(op[3], op[5])]] /\ out' = Reply("ok", <<>>)
    [] op[1] = "odd" -> IF Here(op[2]) THEN Skip ELSE x' = [x EXCEPT ![op[2]] = [l |-> op[3], n |-> op[4], c |-> 90]] /\ out' = Reply("ok", <<>>)
    [] op[1] = "del" -> IF ~Here(op[2]) THEN Skip ELSE x' = [x EXCEPT ![op[2]] = None] /\ out' = Reply("ok", <<>>)
    [] op[1] = "cp" -> IF ~Here(op[3]) THEN Skip ELSE x' = [x EXCEPT ![op[2]] = x[op[3]]] /\ out' = Reply("ok", <<>>)
    [] op[1] = "holds" -> IF ~Here(op[2]) THEN Skip
                          ELSE x' = x /\ out' = Reply("ok", <<IF x[op[2]].c = Code(x[op[2]].l, op[3]) THEN 1 ELSE 0>>)
    \* visit with a visitor returning a value, a reference, nothing: how often it was called, with which alternative, what it returned
    [] op[1] \in {"val", "ref", "void"} ->
         IF ~Here(op[2]) THEN Skip
         ELSE LET v == x[op[2]]  i == Named(v.l, v.n, v.c)
              IN x' = x /\ out' = IF i = 0 THEN Reply("abort", <<>>) ELSE Reply("ok", <<1, i, IF op[1] = "void" THEN 0 ELSE 1000 + i>>)
Kinds == {"code", "alt", "odd", "del", "cp", "holds", "val", "ref", "void"}
Absent == {s \in 1..Slots : ~Here(s)}
OpsOf(k) ==
  CASE k = "code" -> {<<k, s, l, n, i>> : s \in Absent, l \in Kinds_, n \in 0..MaxN, i \in Alts}
    [] k = "alt" -> UNION {{<<k, s, l, n, i>> : s \in Absent, l \in Kinds_, i \in 1..n} : n \in 1..MaxN}
    [] k = "odd" -> {<<k, s, l, n>> : s \in Absent, l \in Kinds_, n \in 0..MaxN}
    [] k = "cp" -> {<<k, s, t>> : s \in 1..Slots, t \in 1..Slots}
    [] k = "holds" -> {<<k, s, i>> : s \in 1..Slots, i \in Alts}
    [] k \in {"val", "ref", "void", "del"} -> {<<k, s>> : s \in 1..Slots}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [c |-> [s \in 1..Slots |-> x[s].c], n |-> [s \in 1..Slots |-> x[s].n]]
-----------------------------------------------------------------------------
\* codes of different alternatives differ, so that every code names at most one
Distinct == \A l \in Kinds_ : \A i, j \in Alts : i # j => Code(l, i) # Code(l, j)
StepOK(op) ==
  /\ Distinct
  /\ op[1] = "alt" /\ out'.s = "ok" => Named(op[3], op[4], x'[op[2]].c) = op[5]
  /\ op[1] \in {"val", "ref", "void", "holds"} => x' = x
  /\ op[1] \in {"val", "ref", "void"} /\ out'.s = "ok" => Code(x[op[2]].l, out'.v[2]) = x[op[2]].c /\ out'.v[2] <= x[op[2]].n
=============================================================================
