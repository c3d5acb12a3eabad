----------------------------- MODULE ArrayTree -----------------------------
(* Arrays whose elements hold arrays of the same type: trees. Assigning to an *)
(* array may then release, with its old elements, the very array assigned     *)
(* from. A node is <<value, children>>; a path <<slot, i, j, ...>> denotes    *)
(* an array: that of the slot, the children of its i-th node, and so on.      *)
(* Likewise lists whose elements hold lists: growing one moves its elements.  *)
(* (include/array.hpp: Array; container.hpp: List, LinkedList)                *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS S,       \* roots 1..S
          M,       \* largest number of nodes in generated behaviours
          Vals,
          Faults,  \* element operations that may be made to fail
          Lists,   \* lists, not arrays
          Life     \* 1: the implementation under test counts living elements
VARIABLES root,    \* root -> array of nodes
          out
vars == <<root, out>>
SView == root
Reply(s, v) == [s |-> s, v |-> v]
RECURSIVE Get(_, _), Put(_, _, _), Has(_, _), Count(_)
\* paths below an array: indexes only
Get(a, p) == IF p = <<>> THEN a ELSE Get(a[Head(p)][2], Tail(p))
Has(a, p) == p = <<>> \/ (Head(p) \in 1..Len(a) /\ Has(a[Head(p)][2], Tail(p)))
Put(a, p, b) == IF p = <<>> THEN b ELSE [a EXCEPT ![Head(p)][2] = Put(@, Tail(p), b)]
Count(a) == IF a = <<>> THEN 0 ELSE 1 + Count(a[1][2]) + Count(Tail(a))
At(p) == Get(root[p[1]], Tail(p))
Is(p) == p[1] \in 1..S /\ Has(root[p[1]], Tail(p))
With(r, p, b) == [r EXCEPT ![p[1]] = Put(@, Tail(p), b)]
Under(p, q) == IsPrefix(p, q)      \* q is within the array at p, or is that array
Related(p, q) == Under(p, q) \/ Under(q, p)
Nodes(n, x) == [k \in 1..n |-> <<x, <<>>>>]
Resized(a, n) == [k \in 1..n |-> IF k <= Len(a) THEN a[k] ELSE <<0, <<>>>>]
Set(r) == root' = r /\ out' = Reply("ok", <<>>)
Skip == UNCHANGED root /\ out' = Reply("skip", <<>>)

Init == root = [i \in 1..S |-> <<>>] /\ out = Reply("init", <<>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> Set([i \in 1..S |-> <<>>])
    [] op[1] = "grow" -> IF ~Is(op[2]) THEN Skip ELSE Set(With(root, op[2], Nodes(op[3], op[4])))
    [] op[1] = "resize" -> IF ~Is(op[2]) THEN Skip ELSE Set(With(root, op[2], Resized(At(op[2]), op[3])))
    [] op[1] = "set" -> IF ~Is(op[2]) \/ op[3] \notin 1..Len(At(op[2])) THEN Skip
                        ELSE Set(With(root, op[2], [At(op[2]) EXCEPT ![op[3]][1] = op[4]]))
    [] op[1] = "copy" -> IF ~Is(op[2]) \/ ~Is(op[3]) THEN Skip ELSE Set(With(root, op[2], At(op[3])))
    \* the array moved from is emptied afterwards, unless it went with the old elements
    [] op[1] = "move" ->
         IF ~Is(op[2]) \/ ~Is(op[3]) \/ (Under(op[3], op[2]) /\ op[2] # op[3]) THEN Skip
         ELSE IF Under(op[2], op[3]) THEN Set(With(root, op[2], At(op[3])))
         ELSE Set(With(With(root, op[2], At(op[3])), op[3], <<>>))
    [] op[1] = "swap" -> IF ~Is(op[2]) \/ ~Is(op[3]) \/ (Related(op[2], op[3]) /\ op[2] # op[3]) THEN Skip
                         ELSE Set(With(With(root, op[2], At(op[3])), op[3], At(op[2])))
    \* append a list, or one node of it
    [] op[1] \in {"app", "conc"} -> IF ~Is(op[2]) \/ ~Is(op[3]) THEN Skip ELSE Set(With(root, op[2], At(op[2]) \o At(op[3])))
    [] op[1] = "app1" -> IF ~Is(op[2]) \/ ~Is(op[3]) \/ op[4] \notin 1..Len(At(op[3])) THEN Skip
                         ELSE Set(With(root, op[2], Append(At(op[2]), At(op[3])[op[4]])))
    \* the op[4]-th element operation fails, if it comes to that; the array assigned to is emptied then
    [] op[1] = "fcopy" -> IF ~Is(op[2]) \/ ~Is(op[3]) THEN Skip
                          ELSE \/ Set(With(root, op[2], At(op[3])))
                               \/ root' = With(root, op[2], <<>>) /\ out' = Reply("fault", <<>>)

\* every path
RECURSIVE Below(_)
Below(a) == {<<>>} \cup UNION {{<<k>> \o p : p \in Below(a[k][2])} : k \in 1..Len(a)}
Paths == UNION {{<<i>> \o p : p \in Below(root[i])} : i \in 1..S}
RECURSIVE Total(_)
Total(i) == IF i = 0 THEN 0 ELSE Count(root[i]) + Total(i - 1)
Room == M - Total(S)
Fits(p, q) == Count(At(q)) - Count(At(p)) <= Room
Kinds == IF Lists THEN {"grow", "set", "app", "conc", "app1"} ELSE {"grow", "resize", "set", "copy", "move", "swap"} \cup (IF Faults = {} THEN {} ELSE {"fcopy"})
OpsOf(k) ==
  CASE k = "grow" -> {<<k, p, n, x>> : p \in Paths, n \in {m \in 0..3 : m <= Room}, x \in Vals}
    [] k = "resize" -> {<<k, p, n>> : p \in Paths, n \in {m \in 0..3 : m <= Room}}
    [] k = "set" -> UNION {{<<k, p, n, x>> : n \in 1..Len(At(p)), x \in Vals} : p \in Paths}
    [] k = "copy" -> {<<k, e[1], e[2]>> : e \in {f \in Paths \X Paths : Fits(f[1], f[2])}}
    [] k = "fcopy" -> {<<k, e[1], e[2], n>> : e \in {f \in Paths \X Paths : Fits(f[1], f[2]) /\ At(f[2]) # <<>>}, n \in Faults}
    [] k \in {"app", "conc"} -> {<<k, e[1], e[2]>> : e \in {f \in Paths \X Paths : Count(At(f[2])) <= Room}}
    [] k = "app1" -> UNION {{<<k, e[1], e[2], n>> : n \in {m \in 1..Len(At(e[2])) : 1 + Count(At(e[2])[m][2]) <= Room}} : e \in Paths \X Paths}
    [] k = "move" -> {<<k, e[1], e[2]>> : e \in {f \in Paths \X Paths : ~(Under(f[2], f[1]) /\ f[1] # f[2])}}
    [] k = "swap" -> {<<k, e[1], e[2]>> : e \in {f \in Paths \X Paths : f[1] = f[2] \/ ~Related(f[1], f[2])}}
\* random behaviours: one path or pair of paths, often one within the other
Pick(k) == IF k \notin {"copy", "fcopy", "move"} THEN OpsOf(k)
           ELSE UNION {UNION {IF (IF k = "move" THEN Under(q, p) /\ p # q ELSE ~Fits(p, q)) THEN {}
                              ELSE {<<k, p, q>> \o (IF k = "fcopy" THEN <<RandomElement(Faults)>> ELSE <<>>)}
                              : q \in {RandomElement(IF RandomElement({1, 2, 3}) = 1 THEN Paths ELSE {x \in Paths : Under(p, x)})}}
                       : p \in {RandomElement(Paths)}}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [a |-> root, live |-> Life * Total(S), lost |-> <<0, 0>>]
-----------------------------------------------------------------------------
AtNext(p) == Get(root'[p[1]], Tail(p))
\* what was assigned from is what the array holds afterwards, wherever it was; everything outside is as before
StepOK(op) ==
  /\ op[1] \in {"copy", "move"} /\ out'.s = "ok" => AtNext(op[2]) = At(op[3])
  /\ op[1] \in {"app", "conc"} /\ out'.s = "ok" => AtNext(op[2]) = At(op[2]) \o At(op[3])
  /\ op[1] \in {"copy", "fcopy", "grow", "resize", "app", "conc", "app1"} => \A p \in Paths : ~Related(p, op[2]) => AtNext(p) = At(p)
  /\ op[1] = "swap" /\ out'.s = "ok" => AtNext(op[2]) = At(op[3]) /\ AtNext(op[3]) = At(op[2])
  /\ op[1] \in {"move", "swap"} => \A p \in Paths : ~Related(p, op[2]) /\ ~Related(p, op[3]) => AtNext(p) = At(p)
  /\ op[1] = "swap" => Total(S) = LET RECURSIVE T(_) T(i) == IF i = 0 THEN 0 ELSE Count(root'[i]) + T(i - 1) IN T(S)
=============================================================================
