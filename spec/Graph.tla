------------------------------- MODULE Graph -------------------------------
(* Containers whose entries hold the operands of operations on them: a map    *)
(* from nodes to sets of nodes (a graph), from which the successors of a node *)
(* are removed, and a set of nodes holding lists of nodes. Removing entries   *)
(* may then release the very set or list that says what to remove.            *)
(* (include/container.hpp: Map::remove_keys, insert, adjoin, operator[],      *)
(* restrict_keys; Set::remove, restrict, adjoin)                              *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC, Randomization
CONSTANTS N,       \* nodes 1..N
          Big,     \* largest number of successors given at once in random behaviours
          Full     \* all operations, not just those of a set of nodes
VARIABLES dom,     \* nodes present
          succ,    \* node -> set of nodes, {} where not present
          out
vars == <<dom, succ, out>>
SView == <<dom, succ>>
Nodes == 1..N
Reply(s, v) == [s |-> s, v |-> v]
Set(d, f) == dom' = d /\ succ' = [x \in Nodes |-> IF x \in d THEN f[x] ELSE {}] /\ out' = Reply("ok", <<>>)
Skip == UNCHANGED <<dom, succ>> /\ out' = Reply("skip", <<>>)
Empty == [x \in Nodes |-> {}]

Init == dom = {} /\ succ = Empty /\ out = Reply("init", <<>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> Set({}, Empty)
    [] op[1] = "put" -> Set(dom \cup {op[2]}, [succ EXCEPT ![op[2]] = ToSet(op[3])])
    \* operations with the set held by node op[2], on the container
    [] op[1] = "remk" -> IF op[2] \notin dom THEN Skip ELSE Set(dom \ succ[op[2]], succ)
    [] op[1] = "restk" -> IF op[2] \notin dom THEN Skip ELSE Set(dom \cap succ[op[2]], succ)
    \* with the set held by node op[3], on the entry of op[2]
    [] op[1] \in {"adj", "rem", "res"} ->
         IF op[2] \notin dom \/ op[3] \notin dom THEN Skip
         ELSE Set(dom, [succ EXCEPT ![op[2]] = CASE op[1] = "adj" -> @ \cup succ[op[3]] [] op[1] = "rem" -> @ \ succ[op[3]] [] OTHER -> @ \cap succ[op[3]]])
    [] op[1] = "ins" -> IF op[3] \notin dom THEN Skip
                        ELSE Set(dom \cup {op[2]}, IF op[2] \in dom THEN succ ELSE [succ EXCEPT ![op[2]] = succ[op[3]]])
    [] op[1] = "asn" -> IF op[3] \notin dom THEN Skip ELSE Set(dom \cup {op[2]}, [succ EXCEPT ![op[2]] = succ[op[3]]])

Kinds == {"put", "remk"} \cup (IF Full THEN {"restk", "adj", "rem", "res", "ins", "asn"} ELSE {})
Sorted(s) == SetToSortSeq(s, <)
OpsOf(k) ==
  CASE k = "put" -> {<<k, x, Sorted(s)>> : x \in Nodes, s \in SUBSET Nodes}
    [] k \in {"remk", "restk"} -> {<<k, x>> : x \in dom}
    [] k \in {"adj", "rem", "res"} -> {<<k, x, y>> : x \in dom, y \in dom}
    [] k \in {"ins", "asn"} -> {<<k, x, y>> : x \in Nodes, y \in dom}
\* random behaviours: nodes are mostly added, and often are their own successors
Pick(k) == IF k # "put" THEN OpsOf(k)
           ELSE UNION {UNION {{<<k, x, Sorted(s \cup (IF RandomElement({1, 2}) = 1 THEN {x} ELSE {}))>>}
                              : s \in {RandomSubset(RandomElement(0..Big), Nodes)}} : x \in {RandomElement(Nodes)}}
PickKind(zz) == IF RandomElement({1, 2, 3, 4}) > 1 THEN "put" ELSE RandomElement(Kinds)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == LET d == Sorted(dom) IN [m |-> [i \in 1..Len(d) |-> <<d[i], Sorted(succ[d[i]])>>], lost |-> <<0, 0>>]
-----------------------------------------------------------------------------
\* exactly the successors go, as they were when the operation began; the other entries are as before
StepOK(op) ==
  /\ op[1] = "remk" /\ op[2] \in dom => \A x \in Nodes : x \in dom' <=> x \in dom /\ x \notin succ[op[2]]
  /\ op[1] \in {"remk", "restk"} => \A x \in dom' : succ'[x] = succ[x]
  /\ op[1] = "ins" => \A x \in dom : x \in dom' /\ succ'[x] = succ[x]
  /\ op[1] \in {"adj", "rem", "res"} => dom' = dom /\ \A x \in dom : x # op[2] => succ'[x] = succ[x]
=============================================================================
