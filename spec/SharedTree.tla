----------------------------- MODULE SharedTree -----------------------------
(* Shared arrays whose elements hold shared arrays of the same type. Assigning *)
(* to one may release, with its old elements, the one assigned from. Elements  *)
(* live in blocks; an element is <<value, block>>, block 0 holding none. A     *)
(* path <<slot, i, j, ...>> denotes the array of the slot, that of its i-th    *)
(* element, and so on. Cycles, which would never be released, are not made.    *)
(* (include/array.hpp: SharedArray)                                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS S,       \* roots 1..S
          M,       \* largest number of elements in generated behaviours
          B,       \* blocks 1..B
          Vals,
          Life     \* 1: the implementation under test counts living elements
VARIABLES root,    \* root -> block
          mem,     \* block -> its elements
          out
vars == <<root, mem, out>>
SView == <<root, mem>>
Reply(s, v) == [s |-> s, v |-> v]
E(m, b) == IF b = 0 THEN <<>> ELSE m[b]
\* the block a path leads to, and whether there is such a path
RECURSIVE Blk(_, _, _), Has(_, _, _), Reach(_, _), Count(_, _)
Blk(m, b, p) == IF p = <<>> THEN b ELSE Blk(m, E(m, b)[Head(p)][2], Tail(p))
Has(m, b, p) == p = <<>> \/ (Head(p) \in 1..Len(E(m, b)) /\ Has(m, E(m, b)[Head(p)][2], Tail(p)))
At(p) == Blk(mem, root[p[1]], Tail(p))
Is(p) == p[1] \in 1..S /\ Has(mem, root[p[1]], Tail(p))
\* the blocks that can be reached from a block, it included
Reach(m, b) == IF b = 0 THEN {} ELSE {b} \cup UNION {Reach(m, m[b][k][2]) : k \in 1..Len(m[b])}
Alive(r, m) == UNION {Reach(m, r[i]) : i \in 1..S}
Reap(r, m) == LET A == Alive(r, m) IN [b \in 1..B |-> IF b \in A THEN m[b] ELSE <<>>]
Free == CHOOSE b \in 1..B : b \notin Alive(root, mem) /\ \A c \in 1..(b - 1) : c \in Alive(root, mem)
\* the block holding the array at a path, 0 if it is a root
Holder(p) == IF Len(p) = 1 THEN 0 ELSE At(Front(p))
Cyclic(p, b) == Len(p) > 1 /\ Holder(p) \in Reach(mem, b)
Set(r, m) == root' = r /\ mem' = Reap(r, m) /\ out' = Reply("ok", <<>>)
\* let the array at p be the block b
Let(p, b, m) == IF Len(p) = 1 THEN Set([root EXCEPT ![p[1]] = b], m) ELSE Set(root, [m EXCEPT ![Holder(p)][Last(p)][2] = b])
Skip == UNCHANGED <<root, mem>> /\ out' = Reply("skip", <<>>)

Init == root = [i \in 1..S |-> 0] /\ mem = [b \in 1..B |-> <<>>] /\ out = Reply("init", <<>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> Set([i \in 1..S |-> 0], mem)
    [] op[1] = "grow" -> IF ~Is(op[2]) THEN Skip
                         ELSE IF op[3] = 0 THEN Let(op[2], 0, mem)
                         ELSE LET b == Free IN Let(op[2], b, [mem EXCEPT ![b] = [k \in 1..op[3] |-> <<op[4], 0>>]])
    [] op[1] = "set" -> IF ~Is(op[2]) \/ op[3] \notin 1..Len(E(mem, At(op[2]))) THEN Skip
                        ELSE Set(root, [mem EXCEPT ![At(op[2])][op[3]][1] = op[4]])
    [] op[1] = "copy" -> IF ~Is(op[2]) \/ ~Is(op[3]) \/ Cyclic(op[2], At(op[3])) THEN Skip ELSE Let(op[2], At(op[3]), mem)
RECURSIVE Below(_, _)
Below(m, b) == {<<>>} \cup UNION {{<<k>> \o p : p \in Below(m, E(m, b)[k][2])} : k \in 1..Len(E(m, b))}
Paths == UNION {{<<i>> \o p : p \in Below(mem, root[i])} : i \in 1..S}
RECURSIVE Sum(_, _)
Sum(m, b) == IF b = 0 THEN 0 ELSE Len(m[b]) + Sum(m, b - 1)
Count(m, b) == IF b = 0 THEN 0 ELSE LET e == m[b] IN Len(e) + FoldLeft(LAMBDA n, x : n + Count(m, x[2]), 0, e)
Seen(zz) == FoldLeft(LAMBDA n, b : n + Count(mem, b), 0, root)      \* elements, each as often as it is seen
Room == M - Sum(mem, B)
Few == Seen(0) <= 4 * M
Kinds == {"grow", "set", "copy"}
OpsOf(k) ==
  CASE k = "grow" -> {<<k, p, n, x>> : p \in Paths, n \in {m \in 0..3 : m <= Room}, x \in Vals}
    [] k = "set" -> UNION {{<<k, p, n, x>> : n \in 1..Len(E(mem, At(p))), x \in Vals} : p \in Paths}
    [] k = "copy" -> {<<k, e[1], e[2]>> : e \in {f \in Paths \X Paths : ~Cyclic(f[1], At(f[2])) /\ (Few \/ IsPrefix(f[1], f[2]))}}
Pick(k) == IF k # "copy" THEN OpsOf(k)
           ELSE UNION {UNION {IF Cyclic(p, At(q)) THEN {} ELSE {<<k, p, q>>}
                              : q \in {RandomElement(IF Few /\ RandomElement({1, 2}) = 1 THEN Paths ELSE {x \in Paths : IsPrefix(p, x)})}}
                       : p \in {RandomElement(Paths)}}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
RECURSIVE Tree(_, _)
Tree(m, b) == LET e == E(m, b) IN [k \in 1..Len(e) |-> <<e[k][1], Tree(m, e[k][2])>>]
Obs == [a |-> [i \in 1..S |-> Tree(mem, root[i])], live |-> Life * Sum(mem, B), lost |-> <<0, 0>>]
-----------------------------------------------------------------------------
NothingKept == \A b \in 1..B : mem[b] # <<>> => b \in Alive(root, mem)
NoCycle == \A b \in 1..B : \A k \in 1..Len(mem[b]) : b \notin Reach(mem, mem[b][k][2])
AtNext(p) == Blk(mem', root'[p[1]], Tail(p))
\* the array assigned to is the one assigned from, and no element is changed by it but the one holding the array
StepOK(op) ==
  /\ op[1] = "copy" /\ out'.s = "ok" => AtNext(op[2]) = At(op[3]) /\ E(mem', AtNext(op[2])) = E(mem, At(op[3]))
  /\ op[1] = "set" => root' = root /\ \A b \in 1..B : (op[2] \in Paths /\ b = At(op[2])) \/ mem'[b] = mem[b]
  /\ op[1] = "grow" => \A i \in 1..S : i # op[2][1] => root'[i] = root[i]
=============================================================================
