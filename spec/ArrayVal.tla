------------------------------ MODULE ArrayVal ------------------------------
(* Several Helper::Array variables as independent sequences, and what the   *)
(* failure of an element copy at any point may leave behind.                 *)
(* (include/array.hpp: Array)                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,        \* array variables 1..S
          M,        \* longest sequence used as argument
          Vals,     \* element values (0 is the default value)
          Faults    \* positions at which copying is made to fail; {} for none

VARIABLES a,        \* slot -> [p: does the array exist, e: its elements]
          out
vars == <<a, out>>
SView == a
Slots == 1..S
Reply(s, v) == [s |-> s, v |-> v]
Absent == [p |-> 0, e |-> <<>>]
Arr(e) == [p |-> 1, e |-> e]
Rep(n, x) == [k \in 1..n |-> x]
Min(m, n) == IF m < n THEN m ELSE n

\* sizes tried where M is too large for all of them
Sizes == IF M <= 7 THEN 0..M ELSE {n \in {0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300} : n <= M}
Seqs == IF M <= 2 THEN UNION {[1..n -> Vals] : n \in 0..M}
        ELSE {[k \in 1..n |-> 1 + ((k * (k + n)) % 7)] : n \in {m \in Sizes : m > 7}} \cup {<<>>, <<1>>, <<2, 1>>, <<3, 1, 2>>, <<2, 2, 3, 1>>, <<1, 2, 3, 2, 1>>, <<3, 2, 1, 1, 2, 3, 3>>}
Seqs1 == {s \in Seqs : Len(s) <= M}

\* ---- what each operation makes of the arrays it names -----------------------
Makes == {"mk0", "mkn", "mknx", "mklist", "mkgen", "mkrange", "mkfwd", "mkconv", "mkexpl", "mkraw", "mkpr", "mkprarr", "mkcopy", "mkmove", "mksub"}
\* the value a construction gives
Made(op) ==
  CASE op[1] = "mk0" -> <<>>
    [] op[1] = "mkn" -> Rep(op[3], 0)
    [] op[1] = "mknx" -> Rep(op[3], op[4])
    [] op[1] = "mkgen" -> [k \in 1..op[3] |-> k * op[4]]
    [] op[1] \in {"mklist", "mkrange", "mkfwd", "mkconv", "mkexpl", "mkraw"} -> op[3]
    [] op[1] \in {"mkpr", "mkprarr"} -> op[3]      \* every element made with the parameter op[4]
    [] op[1] \in {"mkcopy", "mkmove"} -> a[op[3]].e
    [] op[1] = "mksub" -> SubSeq(a[op[3]].e, op[4] + 1, op[5])

\* the value an operation on an existing array gives it
Resized(e, n, x) == [k \in 1..n |-> IF k <= Len(e) THEN e[k] ELSE x]
Changes == {"cp", "mv", "asgl", "rsz", "rszx", "rszs", "rea", "fill", "fills", "fillseq", "asg", "wr"}
Huge == {"mkhuge", "rszhuge"}
Pos(op) == CASE op[4] = 2 -> 1 [] op[4] = 3 -> Len(a[op[2]].e) [] OTHER -> op[3] + 1   \* where "wr" writes
Changed(op) ==
  LET e == a[op[2]].e
  IN CASE op[1] \in {"cp", "mv"} -> a[op[3]].e
       [] op[1] \in {"asgl", "asg", "fillseq"} -> op[3]
       [] op[1] = "rsz" -> Resized(e, op[3], 0)
       [] op[1] = "rszx" -> Resized(e, op[3], op[4])
       [] op[1] = "rszs" -> Resized(e, op[3], e[op[4] + 1])
       [] op[1] = "rea" -> IF op[3] = Len(e) THEN e ELSE Rep(op[3], 0)
       [] op[1] = "fill" -> Rep(Len(e), op[3])
       [] op[1] = "fills" -> Rep(Len(e), e[op[3] + 1])
       [] op[1] = "wr" -> [e EXCEPT ![Pos(op)] = op[5]]

Has(i) == a[i].p = 1
\* may the operation be called at all?
Pre(op) ==
  CASE op[1] \in {"mkcopy", "mkmove"} -> ~Has(op[2]) /\ Has(op[3])
    [] op[1] = "mksub" -> ~Has(op[2]) /\ Has(op[3]) /\ op[4] <= op[5] /\ op[5] <= Len(a[op[3]].e)
    [] op[1] \in Makes \ {"mkcopy", "mkmove", "mksub"} -> ~Has(op[2])
    [] op[1] = "mkhuge" -> ~Has(op[2])
    [] op[1] \in {"cp", "mv", "swap", "eq"} -> Has(op[2]) /\ Has(op[3])
    [] op[1] = "rszs" -> Has(op[2]) /\ op[4] < Len(a[op[2]].e)
    [] op[1] = "fills" -> Has(op[2]) /\ op[3] < Len(a[op[2]].e)
    [] op[1] = "fillseq" -> Has(op[2]) /\ Len(op[3]) = Len(a[op[2]].e)
    [] op[1] = "wr" -> Has(op[2]) /\ (IF op[4] \in {2, 3} THEN Len(a[op[2]].e) > 0 ELSE op[3] < Len(a[op[2]].e))
    [] OTHER -> Has(op[2])

\* checked access may be called with any index
Callable(op) == Pre(op) \/ (op[1] = "wr" /\ op[4] = 1 /\ Has(op[2]))

Init == a = [i \in Slots |-> Absent] /\ out = Reply("init", <<>>)
Ok == out' = Reply("ok", <<>>)
\* The value left in an array that was moved from is its own affair: empty, as before, or exchanged.
Leftovers(old, target) == {<<>>, old, target}

Normal(op) ==
  CASE op[1] = "mkmove" ->
         \E r \in Leftovers(a[op[3]].e, <<>>) : a' = [a EXCEPT ![op[2]] = Arr(a[op[3]].e), ![op[3]] = Arr(r)] /\ Ok
    [] op[1] = "mv" /\ op[2] # op[3] ->
         \E r \in Leftovers(a[op[3]].e, a[op[2]].e) : a' = [a EXCEPT ![op[2]] = Arr(a[op[3]].e), ![op[3]] = Arr(r)] /\ Ok
    [] op[1] \in Makes \ {"mkmove"} -> a' = [a EXCEPT ![op[2]] = Arr(Made(op))] /\ Ok
    [] op[1] = "wr" /\ op[4] = 1 /\ Pos(op) > Len(a[op[2]].e) -> a' = a /\ out' = Reply("throw", <<>>)
    [] op[1] \in Changes /\ ~(op[1] = "mv" /\ op[2] # op[3]) -> a' = [a EXCEPT ![op[2]] = Arr(Changed(op))] /\ Ok
    [] op[1] = "del" -> a' = [a EXCEPT ![op[2]] = Absent] /\ Ok
    [] op[1] = "swap" -> a' = [a EXCEPT ![op[2]] = a[op[3]], ![op[3]] = a[op[2]]] /\ Ok
    [] op[1] = "at" -> /\ a' = a
                       /\ out' = IF op[3] < Len(a[op[2]].e) THEN Reply("ok", <<a[op[2]].e[op[3] + 1]>>) ELSE Reply("throw", <<>>)
    [] op[1] = "athi" -> a' = a /\ out' = Reply("ok", <<1, 1>>)    \* an index far outside: refused on a variable and on a constant
    \* more elements than there can be: refused
    [] op[1] \in Huge -> a' = a /\ out' = Reply("refused", <<>>)
    [] op[1] = "eq" -> LET q == IF a[op[2]].e = a[op[3]].e THEN 1 ELSE 0 IN a' = a /\ out' = Reply("ok", <<q, 1 - q>>)

\* ---- failing element copies --------------------------------------------------
\* The exception reaches the caller. A failed construction leaves nothing behind; a failed change of size
\* leaves the array as it was; where elements are overwritten one by one each has its old or its new value.
Overwrites(op) == op[1] \in {"fill", "fills", "fillseq", "wr"} \/ (op[1] \in {"cp", "asgl"} /\ Len(Changed(op)) = Len(a[op[2]].e))
\* What overwriting e by c, element by element in any order, may have made of it when it is interrupted. Enumerated
\* where there are few elements; for long sequences here only those interrupted in order, while a recorded
\* trace is checked against the definition itself (Mixed).
Mixed(x, e, c) == Len(x) = Len(e) /\ \A k \in 1..Len(e) : x[k] \in {e[k], c[k]}
Mixes(e, c) == IF Len(e) <= 8 THEN {[k \in 1..Len(e) |-> IF n[k] THEN c[k] ELSE e[k]] : n \in [1..Len(e) -> BOOLEAN]}
               ELSE {[k \in 1..Len(e) |-> IF k <= n THEN c[k] ELSE e[k]] : n \in 0..Len(e)}
Failed(op) ==
  /\ out' = Reply("fault", <<>>)
  /\ IF op[1] \in Changes /\ Overwrites(op)
     THEN \E x \in Mixes(a[op[2]].e, Changed(op)) : a' = [a EXCEPT ![op[2]] = Arr(x)]
     ELSE IF op[1] = "asg"    \* resize, then overwrite
     THEN \/ a' = a
          \/ LET e == Resized(a[op[2]].e, Len(op[3]), 0)
             IN \E x \in Mixes(e, op[3]) : a' = [a EXCEPT ![op[2]] = Arr(x)]
     ELSE a' = a
CanFail(op) == op[1] \notin Huge \cup {"mk0", "mkmove", "mv", "del", "swap", "at", "athi", "eq"}

Do(op) ==
  CASE op[1] \in {"new", "end"} -> a' = [i \in Slots |-> Absent] /\ Ok
    [] op[1] = "fault" ->
         LET o == Tail(Tail(op))
         IN  IF ~Callable(o) THEN a' = a /\ out' = Reply("skip", <<>>) ELSE Normal(o) \/ (CanFail(o) /\ Failed(o))
    [] OTHER -> IF ~Callable(op) THEN a' = a /\ out' = Reply("skip", <<>>) ELSE Normal(op)

Ns == Sizes
Here == {i \in Slots : a[i].p = 1}
Gone == Slots \ Here
Idx(i) == 0..(Len(a[i].e) - 1)
BaseKinds == Makes \cup Changes \cup Huge \cup {"del", "swap", "eq", "at", "athi"}
OpsOf1(k) ==
  CASE k = "mk0" -> {<<k, i>> : i \in Gone}
    [] k = "mkn" -> {<<k, i, n>> : i \in Gone, n \in Ns}
    [] k \in {"mknx", "mkgen"} -> {<<k, i, n, x>> : i \in Gone, n \in Ns, x \in Vals}
    [] k \in {"mklist", "mkrange", "mkfwd", "mkconv", "mkexpl", "mkraw"} -> {<<k, i, s>> : i \in Gone, s \in Seqs1}
    [] k \in {"mkpr", "mkprarr"} -> {<<k, i, s, x>> : i \in Gone, s \in Seqs1, x \in {0, 2}}
    [] k = "athi" -> {<<k, i, n, h>> : i \in Here, n \in {0, 1}, h \in 0..1}
    [] k = "mkhuge" -> {<<k, i, n, h>> : i \in Gone, n \in 0..4, h \in 0..3}
    [] k = "rszhuge" -> {<<k, i, n, h>> : i \in Here, n \in 0..4, h \in 0..2}
    [] k \in {"mkcopy", "mkmove"} -> {<<k, i, j>> : i \in Gone, j \in Here}
    [] k = "mksub" -> {o \in UNION {{<<k, i, j, b, c>> : i \in Gone, b \in 0..Len(a[j].e), c \in 0..Len(a[j].e)} : j \in Here} : o[4] <= o[5]}
    [] k = "del" -> {<<k, i>> : i \in Here}
    [] k \in {"cp", "mv", "swap", "eq"} -> {<<k, i, j>> : i \in Here, j \in Here}
    [] k \in {"asgl", "asg"} -> {<<k, i, s>> : i \in Here, s \in Seqs1}
    [] k = "fillseq" -> UNION {{<<k, i, [x \in 1..Len(a[i].e) |-> (x * v) % 3]>> : v \in Vals} : i \in Here}
    [] k \in {"rsz", "rea", "at"} -> {<<k, i, n>> : i \in Here, n \in Ns}
    [] k = "fills" -> UNION {{<<k, i, n>> : n \in Idx(i)} : i \in Here}
    [] k = "rszx" -> {<<k, i, n, x>> : i \in Here, n \in Ns, x \in Vals}
    [] k = "rszs" -> UNION {{<<k, i, n, m>> : n \in Ns, m \in Idx(i)} : i \in Here}
    [] k = "fill" -> {<<k, i, x>> : i \in Here, x \in Vals}
    [] k = "wr" -> UNION {{<<k, i, m, h, x>> : m \in Idx(i), h \in 0..4, x \in Vals} \cup {<<k, i, Len(a[i].e), 1, x>> : x \in Vals} : i \in Here}
Kinds == BaseKinds \cup (IF Faults = {} THEN {} ELSE {"fault"})
Failing == {k \in BaseKinds : k \notin Huge \cup {"mk0", "mkmove", "mv", "del", "swap", "at", "athi", "eq"}}
OpsOf(k) == IF k = "fault" THEN {<<"fault", f>> \o o : f \in Faults, o \in UNION {OpsOf1(b) : b \in Failing}} ELSE OpsOf1(k)
Pick1(k) == IF M > 7 /\ k = "mksub" /\ Here # {} /\ Gone # {}
            THEN LET i == RandomElement(Gone) j == RandomElement(Here) b == RandomElement(0..Len(a[j].e)) c == RandomElement(b..Len(a[j].e))
                 IN {<<k, i, j, b, c>>}
            ELSE IF M > 7 /\ k = "mkgen" THEN {<<k, i, n, x>> : i \in Gone, n \in {0, 3, 65, 257, 300} \cap (0..M), x \in Vals}
            ELSE OpsOf1(k)
\* random behaviours over very long arrays: one random operation of the kind
Vast(k) ==
  LET n == RandomElement({0, 1, 1000, 1023, 1024, 1025, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537, 70000})
      x == RandomElement(Vals)
      i == RandomElement(IF k \in Makes THEN Gone ELSE Here)
      j == RandomElement(IF Here = {} THEN Slots ELSE Here)
      L == Len(a[i].e)
      m == IF L = 0 THEN 0 ELSE RandomElement({0, L \div 2, L - 1, RandomElement(0..(L - 1))})
      b == RandomElement(0..Len(a[j].e))
      c == RandomElement(b..Len(a[j].e))
      q == [y \in 1..n |-> ((y * x) + (y \div 256)) % 5] \o <<>>
  IN CASE k \in {"mk0", "del"} -> {<<k, i>>}
       [] k \in {"mkn", "rsz", "rea"} -> {<<k, i, n>>}
       [] k \in {"mknx", "mkgen", "rszx"} -> {<<k, i, n, x>>}
       [] k \in {"mkrange", "mkfwd", "mkconv", "mkexpl", "mkraw", "asg"} -> {<<k, i, q>>}
       [] k \in {"mkcopy", "mkmove", "cp", "mv", "swap", "eq"} -> {<<k, i, j>>}
       [] k = "mksub" -> {<<k, i, j, b, c>>}
       [] k = "at" -> {<<k, i, RandomElement({m, L, n})>>}
       [] k = "fill" -> {<<k, i, x>>}
       [] k = "fillseq" -> {<<k, i, [y \in 1..L |-> ((y * x) + (y \div 256)) % 3] \o <<>>>>}
       [] k = "wr" -> {o \in {<<k, i, m, h, x>> : h \in 0..4} : L > 0}
       [] k \in {"fills", "rszs"} -> {o \in {IF k = "fills" THEN <<k, i, m>> ELSE <<k, i, n, m>>} : L > 0}
       [] OTHER -> {}
Pick(k) == IF M > 300 THEN Vast(k) ELSE IF k = "fault" THEN {<<"fault", RandomElement(Faults)>> \o o : o \in Pick1(RandomElement(Failing))} ELSE Pick1(k)
\* random behaviours: no kind that cannot be taken, and room for a new array made often
PickKind(zz) == IF Here = {} THEN RandomElement(Makes \ {"mkcopy", "mkmove", "mksub"})
                ELSE IF Gone = {} THEN (IF RandomElement(1..4) = 1 THEN "del" ELSE RandomElement(Kinds \ Makes))
                ELSE IF RandomElement(1..4) = 1 THEN RandomElement(Makes) ELSE RandomElement(Kinds)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars

\* Everything that can be seen of the arrays, and of the bookkeeping once all are gone.
Ends(e) == IF e = <<>> THEN <<>> ELSE <<e[1], e[Len(e)]>>
Obs == [a |-> [i \in Slots |-> [p |-> a[i].p, n |-> Len(a[i].e), e |-> a[i].e, it |-> a[i].e,
                                 em |-> IF a[i].p = 1 /\ a[i].e = <<>> THEN 1 ELSE 0, fb |-> Ends(a[i].e)]],
        lost |-> <<0, 0, 0>>]   \* elements and storage left when no array is left; operations on dead elements
Short == \A i \in Slots : Len(a[i].e) <= M
-----------------------------------------------------------------------------
TypeOK == \A i \in Slots : a[i].p \in {0, 1} /\ (a[i].p = 0 => a[i].e = <<>>)
\* An operation changes at most the arrays it names, a refused or failed one none that has to stay; a faulty
\* construction leaves no array, and a fault changes no array's existence.
StepOK(op) ==
  op[1] \notin {"new", "end"} =>
    LET o == IF op[1] = "fault" THEN Tail(Tail(op)) ELSE op
    IN  /\ \A i \in Slots : a'[i] # a[i] => i = o[2] \/ (o[1] \in {"mkmove", "mv", "swap"} /\ i = o[3])
        /\ out'.s \in {"throw", "skip", "refused"} => a' = a
        /\ out'.s = "fault" => /\ \A i \in Slots : a[i].p = a'[i].p
                               /\ o[1] \in Makes \cup {"rsz", "rszx", "rszs", "rea"} => a' = a
        /\ o[1] \in {"rsz", "rszx", "rszs"} /\ out'.s = "ok" =>
             /\ Len(a'[o[2]].e) = o[3]
             /\ \A k \in 1..Min(Len(a[o[2]].e), o[3]) : a'[o[2]].e[k] = a[o[2]].e[k]
=============================================================================
