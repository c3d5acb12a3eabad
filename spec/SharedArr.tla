----------------------------- MODULE SharedArr -----------------------------
(* Shared arrays: several variables may refer to the same elements.          *)
(* (include/array.hpp: SharedArray)                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,       \* variables 1..S
          M,       \* largest size
          Vals,
          Life     \* 1: the implementation under test counts living elements
VARIABLES ref,     \* variable -> group of elements it refers to, 0: no such shared array
          mem,     \* group -> its elements (<<>> when nobody refers to it)
          out
vars == <<ref, mem, out>>
SView == <<ref, mem>>
Slots == 1..S
Reply(s, v) == [s |-> s, v |-> v]
Owners(r, g) == {i \in Slots : r[i] = g}
Here == {i \in Slots : ref[i] # 0}
Gone == Slots \ Here
\* the group a new array gets: the smallest free one
Free(r) == CHOOSE g \in Slots : Owners(r, g) = {} /\ \A h \in Slots : h < g => Owners(r, h) # {}
\* elements nobody refers to are gone
Reap(r, m) == [g \in Slots |-> IF Owners(r, g) = {} THEN <<>> ELSE m[g]]
Set(r, m) == ref' = r /\ mem' = Reap(r, m) /\ out' = Reply("ok", <<>>)
Skip == UNCHANGED <<ref, mem>> /\ out' = Reply("skip", <<>>)

Init == ref = [i \in Slots |-> 0] /\ mem = [g \in Slots |-> <<>>] /\ out = Reply("init", <<>>)
Make(i, e) == IF ref[i] # 0 THEN Skip ELSE LET g == Free(ref) IN Set([ref EXCEPT ![i] = g], [mem EXCEPT ![g] = e])
Do(op) ==
  CASE op[1] \in {"new", "end"} -> Set([i \in Slots |-> 0], mem)
    [] op[1] = "mkn" -> Make(op[2], [k \in 1..op[3] |-> 0])
    [] op[1] = "mknx" -> Make(op[2], [k \in 1..op[3] |-> op[4]])
    [] op[1] = "mklist" -> Make(op[2], op[3])
    \* the op[4]-th copy or construction of an element fails, if it comes to that; nothing is left behind then
    [] op[1] \in {"fmkn", "fmknx", "fmklist"} ->
         IF ref[op[2]] # 0 THEN Skip
         ELSE \/ UNCHANGED <<ref, mem>> /\ out' = Reply("fault", <<>>)
              \/ Make(op[2], IF op[1] = "fmklist" THEN op[3] ELSE [k \in 1..op[3] |-> IF op[1] = "fmkn" THEN 0 ELSE 1])
    [] op[1] = "fasgl" ->
         IF ref[op[2]] = 0 THEN Skip
         ELSE \/ UNCHANGED <<ref, mem>> /\ out' = Reply("fault", <<>>)
              \/ LET r0 == [ref EXCEPT ![op[2]] = 0]
                     g == Free(r0)
                 IN Set([ref EXCEPT ![op[2]] = g], [mem EXCEPT ![g] = op[3]])
    \* more elements than there can be
    [] op[1] = "huge" -> IF ref[op[2]] # 0 THEN Skip ELSE UNCHANGED <<ref, mem>> /\ out' = Reply("refused", <<>>)
    [] op[1] = "mkcopy" -> IF ref[op[2]] # 0 \/ ref[op[3]] = 0 THEN Skip ELSE Set([ref EXCEPT ![op[2]] = ref[op[3]]], mem)
    [] op[1] = "cp" -> IF ref[op[2]] = 0 \/ ref[op[3]] = 0 THEN Skip ELSE Set([ref EXCEPT ![op[2]] = ref[op[3]]], mem)
    \* assign from a temporary: the old elements go unless someone else has them
    [] op[1] = "asgl" -> IF ref[op[2]] = 0 THEN Skip
                         ELSE LET r0 == [ref EXCEPT ![op[2]] = 0]
                                  g == Free(r0)
                              IN Set([ref EXCEPT ![op[2]] = g], [mem EXCEPT ![g] = op[3]])
    [] op[1] = "del" -> IF ref[op[2]] = 0 THEN Skip ELSE Set([ref EXCEPT ![op[2]] = 0], mem)
    [] op[1] = "wr" -> IF ref[op[2]] = 0 \/ op[3] >= Len(mem[ref[op[2]]]) THEN Skip
                       ELSE Set(ref, [mem EXCEPT ![ref[op[2]]][op[3] + 1] = op[5]])
    \* many further owners for a while, one of which writes and which outlive the variable they were copied from,
    \* which is then made anew from one of them; the reply is what they saw after that
    [] op[1] = "crowd" ->
         IF ref[op[2]] = 0 THEN Skip
         ELSE LET g == ref[op[2]]
                  e == IF mem[g] = <<>> THEN <<>> ELSE [mem[g] EXCEPT ![1] = op[4]]
              IN mem' = [mem EXCEPT ![g] = e] /\ ref' = ref /\ out' = Reply("ok", e)

Sizes == IF M <= 3 THEN 0..M ELSE {n \in {0, 1, 2, 3, 7, 8, 9, 16, 17, 31, 33, 64, 65, 100, 255, 256, 257,
                                          1000, 1024, 1025, 4096, 4097, 32768, 65535, 65536, 65537, 70000} : n <= M /\ (M <= 300 \/ n < 3 \/ n >= 1000)}
Lists == IF M <= 3 THEN UNION {[1..n -> Vals] : n \in 0..M} ELSE {[k \in 1..n |-> 1 + ((k * (k + n)) % 7)] : n \in {m \in Sizes : m <= 17}}
Crowds == IF M <= 2 THEN {2} ELSE {1, 2, 7, 254, 255, 256, 300, 70000}
Low(Z) == IF M > 2 THEN Z ELSE {x \in Z : \A y \in Z : x <= y}    \* variables are alike: one of them is enough in the enumerated behaviours
Faults == IF M <= 2 THEN {1, 2} ELSE {1, 2, 3, 4, 5, 8}
Kinds == {"fmkn", "fmknx", "fmklist", "fasgl", "huge", "crowd", "mkn", "mknx", "mklist", "mkcopy", "cp", "asgl", "del", "wr"}
OpsOf(k) ==
  CASE k = "mkn" -> {<<k, i, n>> : i \in Gone, n \in Sizes}
    [] k = "mknx" -> {<<k, i, n, x>> : i \in Gone, n \in Sizes, x \in Vals}
    [] k = "mklist" -> {<<k, i, s>> : i \in Gone, s \in Lists}
    [] k \in {"fmkn", "fmknx"} -> {<<k, i, n, f>> : i \in Low(Gone), n \in {m \in Sizes : m <= 17}, f \in Faults}
    [] k = "fmklist" -> {<<k, i, s, f>> : i \in Low(Gone), s \in Lists, f \in Faults}
    [] k = "fasgl" -> {<<k, i, s, f>> : i \in Low(Here), s \in Lists, f \in Faults}
    [] k = "huge" -> {<<k, i, n, h>> : i \in Low(Gone), n \in 0..4, h \in 0..1}
    [] k = "mkcopy" -> {<<k, i, j>> : i \in Gone, j \in Here}
    [] k = "crowd" -> {<<k, i, n, x>> : i \in Here, n \in Crowds, x \in Vals}
    [] k = "cp" -> {<<k, i, j>> : i \in Here, j \in Here}
    [] k = "asgl" -> {<<k, i, s>> : i \in Here, s \in Lists}
    [] k = "del" -> {<<k, i>> : i \in Here}
    [] k = "wr" -> UNION {{<<k, i, n, h, x>> : n \in 0..(Len(mem[ref[i]]) - 1), h \in 0..1, x \in Vals} : i \in Here}
\* random behaviours over very long arrays: writes at the ends, in the middle or somewhere
Pick(k) == IF M > 300 /\ k = "wr"
           THEN {LET n == Len(mem[ref[i]]) IN <<k, i, RandomElement({0, n \div 2, n - 1, RandomElement(0..(n - 1))}), RandomElement(0..1), RandomElement(Vals)>> : i \in {j \in Here : mem[ref[j]] # <<>>}}
           ELSE OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars

RECURSIVE Total(_)
Total(g) == IF g = 0 THEN 0 ELSE Len(mem[g]) + Total(g - 1)
SeenIn(r, m, i) == IF r[i] = 0 THEN <<>> ELSE m[r[i]]
Seen(i) == SeenIn(ref, mem, i)
SeenNext(i) == SeenIn(ref', mem', i)
Obs == [a |-> [i \in Slots |-> [p |-> IF ref[i] = 0 THEN 0 ELSE 1, n |-> Len(Seen(i)), e |-> Seen(i), it |-> Seen(i)]],
        live |-> Life * Total(S),      \* elements alive: exactly those somebody refers to
        lost |-> <<0, 0>>]             \* storage left when no array is left; operations on dead elements
-----------------------------------------------------------------------------
TypeOK == ref \in [Slots -> 0..S]
NothingKept == \A g \in Slots : Owners(ref, g) = {} => mem[g] = <<>>
\* A write through one variable is seen through exactly those that share with it.
StepOK(op) ==
  /\ op[1] = "wr" => \A i \in Slots : IF ref[i] = ref[op[2]] THEN SeenNext(i)[op[3] + 1] = op[5] ELSE SeenNext(i) = Seen(i)
  /\ op[1] \in {"mkcopy", "cp"} => ref'[op[2]] = ref[op[3]] /\ SeenNext(op[2]) = Seen(op[3])
  /\ op[1] = "crowd" => ref' = ref
  /\ out'.s \in {"fault", "refused", "skip"} => UNCHANGED SView
  /\ op[1] \notin {"new", "end", "wr", "crowd"} => \A i \in Slots \ {op[2]} : SeenNext(i) = Seen(i) /\ (ref[i] = 0) = (ref'[i] = 0)
=============================================================================
