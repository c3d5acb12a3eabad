------------------------------ MODULE Tuples ------------------------------
(* Pairs and tuples, and pairs and tuples of references to variables that    *)
(* are assigned through (include/tuple.hpp).                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NV,      \* variables 1..NV
          S,       \* reference tuples kept 1..S, value tuples kept 1..S
          Sizes,   \* sizes of tuples
          Vals,
          Repeats  \* may a reference tuple name a variable twice?
VARIABLES v,       \* variable -> value
          refs,    \* kept reference tuple -> its kind and the variables it names
          vals,    \* kept value tuple -> its kind and components
          out
vars == <<v, refs, vals, out>>
SView == <<v, refs, vals>>
Vars == 1..NV
Slots == 1..S
Reply(s, r) == [s |-> s, v |-> r]
Nothing == [k |-> "none", e |-> <<>>]
Init == v = [i \in Vars |-> 0] /\ refs = [i \in Slots |-> Nothing] /\ vals = [i \in Slots |-> Nothing] /\ out = Reply("init", <<>>)
Skip == UNCHANGED <<v, refs, vals>> /\ out' = Reply("skip", <<>>)
Ok == out' = Reply("ok", <<>>)
Read(xs) == [p \in 1..Len(xs) |-> v[xs[p]]]
\* a variable named twice holds one of the components it was given
RECURSIVE Outcomes(_, _, _, _)
Outcomes(X, W, xs, as) == IF X = {} THEN W
                          ELSE LET i == CHOOSE i \in X : TRUE
                               IN Outcomes(X \ {i}, {[w EXCEPT ![i] = as[p]] : w \in W, p \in {q \in 1..Len(xs) : xs[q] = i}}, xs, as)
Through(xs, as) ==
  /\ \E w \in Outcomes({xs[p] : p \in 1..Len(xs)}, {v}, xs, as) : v' = w
  /\ UNCHANGED <<refs, vals>> /\ Ok
\* the ordinary case, said directly: each variable is named at most once
Simple(xs) == \A p, q \in 1..Len(xs) : xs[p] = xs[q] => p = q
Assign(xs, as) ==
  IF ~Simple(xs) THEN Through(xs, as)
  ELSE /\ v' = [i \in Vars |-> IF \E p \in 1..Len(xs) : xs[p] = i THEN as[CHOOSE p \in 1..Len(xs) : xs[p] = i] ELSE v[i]]
       /\ UNCHANGED <<refs, vals>> /\ Ok
Compatible(k1, n1, k2, n2) == n1 = n2 /\ (k1 = "tuple" \/ k2 = "pair")     \* a pair converts to a tuple, not the reverse
Overlap(xs, ys) == \E p \in 1..Len(xs), q \in 1..Len(ys) : xs[p] = ys[q]

Do(op) ==
  CASE op[1] \in {"new", "end"} -> /\ v' = [i \in Vars |-> 0] /\ refs' = [i \in Slots |-> Nothing] /\ vals' = [i \in Slots |-> Nothing] /\ Ok
    \* plain assignment to a variable
    [] op[1] = "set" -> v' = [v EXCEPT ![op[2]] = op[3]] /\ UNCHANGED <<refs, vals>> /\ Ok
    \* make_lpair / make_ltuple, kept
    [] op[1] = "hold" -> refs' = [refs EXCEPT ![op[2]] = [k |-> op[3], e |-> op[4]]] /\ UNCHANGED <<v, vals>> /\ Ok
    [] op[1] = "drop" -> refs' = [refs EXCEPT ![op[2]] = Nothing] /\ UNCHANGED <<v, vals>> /\ Ok
    \* reference tuple = tuple of values (the same type, other component types, a named tuple)
    [] op[1] = "asg" -> Assign(op[4], op[5])
    \* reference tuple = tuple made from variables: all are read before any is written
    [] op[1] = "perm" -> Assign(op[3], Read(op[4]))
    \* a kept reference tuple = tuple of values
    [] op[1] = "asgs" -> IF refs[op[2]].k = "none" \/ Len(refs[op[2]].e) # Len(op[3]) THEN Skip ELSE Assign(refs[op[2]].e, op[3])
    \* reference tuple = kept reference tuple naming other variables
    [] op[1] = "asgref" -> LET r == refs[op[4]]
                           IN IF r.k = "none" \/ ~Compatible(op[2], Len(op[3]), r.k, Len(r.e)) \/ Overlap(op[3], r.e) THEN Skip
                              ELSE Assign(op[3], Read(r.e))
    \* reference tuple = kept value tuple
    [] op[1] = "asgval" -> LET r == vals[op[4]]
                           IN IF r.k = "none" \/ ~Compatible(op[2], Len(op[3]), r.k, Len(r.e)) THEN Skip ELSE Assign(op[3], r.e)
    \* component of a kept reference tuple: its value, and is it the variable itself?
    [] op[1] = "rget" -> IF op[4] > Len(refs[op[3]].e) THEN Skip
                         ELSE UNCHANGED <<v, refs, vals>> /\ out' = Reply("ok", <<v[refs[op[3]].e[op[4]]], refs[op[3]].e[op[4]]>>)
    [] op[1] = "rput" -> IF op[4] > Len(refs[op[3]].e) THEN Skip ELSE Assign(<<refs[op[3]].e[op[4]]>>, <<op[5]>>)
    \* make_pair / make_tuple of values, or of what a reference tuple refers to, kept
    [] op[1] = "mk" -> vals' = [vals EXCEPT ![op[2]] = [k |-> op[3], e |-> op[4]]] /\ UNCHANGED <<v, refs>> /\ Ok
    [] op[1] = "mkfrom" -> LET r == refs[op[3]]
                           IN IF r.k = "none" THEN Skip ELSE vals' = [vals EXCEPT ![op[2]] = [k |-> r.k, e |-> Read(r.e)]] /\ UNCHANGED <<v, refs>> /\ Ok
    [] op[1] = "vget" -> IF op[4] > Len(vals[op[3]].e) THEN Skip
                         ELSE UNCHANGED <<v, refs, vals>> /\ out' = Reply("ok", <<vals[op[3]].e[op[4]], op[4]>>)
    [] op[1] = "vput" -> IF op[3] > Len(vals[op[2]].e) THEN Skip
                         ELSE vals' = [vals EXCEPT ![op[2]].e[op[3]] = op[4]] /\ UNCHANGED <<v, refs>> /\ Ok
    \* moved out through the accessor: the component is then given another value
    [] op[1] = "vtake" -> IF op[3] > Len(vals[op[2]].e) THEN Skip
                          ELSE /\ vals' = [vals EXCEPT ![op[2]].e[op[3]] = 0] /\ UNCHANGED <<v, refs>>
                               /\ out' = Reply("ok", <<vals[op[2]].e[op[3]], op[3]>>)
    \* the types the accessors give
    [] op[1] = "types" -> UNCHANGED <<v, refs, vals>> /\ out' = Reply("ok", <<1, 1, 1, 1, 1, 1>>)

Hows == {"same", "conv", "named", "moved"}
Forms == {"lval", "const", "rval"}
Lists(n, X) == [1..n -> X]
Names(n) == {xs \in Lists(n, Vars) : Repeats \/ \A p, q \in 1..n : xs[p] = xs[q] => p = q}
KindsOf(n) == IF n = 2 THEN {"pair", "tuple"} ELSE {"tuple"}
Kinds == {"set", "hold", "drop", "asg", "perm", "asgs", "asgref", "asgval", "rget", "rput", "mk", "mkfrom", "vget", "vput", "vtake", "types"}
RLen(s) == Len(refs[s].e)
VLen(s) == Len(vals[s].e)
Named(n) == IF n < 5 THEN n ELSE 5     \* components with an accessor
\* the operations of one kind with tuples of one size
Sized(k, n) ==
  CASE k = "hold" -> {<<k, s, q, xs>> : s \in Slots, q \in KindsOf(n), xs \in Names(n)}
    [] k = "asg" -> {<<k, h, q, xs, as>> : h \in Hows, q \in KindsOf(n), xs \in Names(n), as \in Lists(n, Vals)}
    [] k = "perm" -> {<<k, q, xs, ys>> : q \in KindsOf(n), xs \in Names(n), ys \in Lists(n, Vars)}
    [] k = "asgs" -> {<<k, s, as>> : s \in {t \in Slots : RLen(t) = n}, as \in Lists(n, Vals)}
    [] k = "asgref" -> UNION {{<<k, q, xs, s>> : q \in {"pair", "tuple"}, xs \in Names(n)} : s \in {t \in Slots : RLen(t) = n}}
    [] k = "asgval" -> UNION {{<<k, q, xs, s>> : q \in {"pair", "tuple"}, xs \in Names(n)} : s \in {t \in Slots : VLen(t) = n}}
    [] k = "rget" -> {<<k, f, s, p>> : f \in Forms, s \in {t \in Slots : RLen(t) = n}, p \in 1..Named(n)}
    [] k = "rput" -> {<<k, f, s, p, a>> : f \in Forms, s \in {t \in Slots : RLen(t) = n}, p \in 1..Named(n), a \in Vals}
    [] k = "mk" -> {<<k, s, q, as>> : s \in Slots, q \in KindsOf(n), as \in Lists(n, Vals)}
    [] k = "mkfrom" -> {<<k, s, t>> : s \in Slots, t \in {u \in Slots : RLen(u) = n}}
    [] k = "vget" -> {<<k, f, s, p>> : f \in Forms, s \in {t \in Slots : VLen(t) = n}, p \in 1..Named(n)}
    [] k = "vput" -> {<<k, s, p, a>> : s \in {t \in Slots : VLen(t) = n}, p \in 1..Named(n), a \in Vals}
    [] k = "vtake" -> {<<k, s, p>> : s \in {t \in Slots : VLen(t) = n}, p \in 1..Named(n)}
OpsOf(k) ==
  CASE k = "set" -> {<<k, i, a>> : i \in Vars, a \in Vals}
    [] k = "drop" -> {<<k, s>> : s \in {t \in Slots : refs[t].k # "none"}}
    [] k = "types" -> {<<k>>}
    [] OTHER -> UNION {Sized(k, n) : n \in Sizes}
\* at random: the size first, then one tuple of names and one of values
RandomList(n, X) == [p \in 1..n |-> RandomElement(X)]
RECURSIVE Distinct(_, _)
Distinct(n, X) == IF n = 0 THEN <<>> ELSE LET x == RandomElement(X) IN <<x>> \o Distinct(n - 1, X \ {x})
RandomNames(n) == IF Repeats THEN RandomList(n, Vars) ELSE Distinct(n, Vars)
Pick(k) ==
  LET n == RandomElement(Sizes) q == RandomElement(KindsOf(n)) s == RandomElement(Slots)
  IN CASE k \in {"set", "drop", "types"} -> OpsOf(k)
       [] k = "hold" -> {<<k, s, q, RandomNames(n)>>}
       [] k = "asg" -> {<<k, RandomElement(Hows), q, RandomNames(n), RandomList(n, Vals)>>}
       [] k = "perm" -> {<<k, q, RandomNames(n), RandomList(n, Vars)>>}
       [] k = "asgs" -> {<<k, s, RandomList(RLen(s), Vals)>>}
       [] k = "asgref" -> IF refs[s].k = "none" THEN {} ELSE {<<k, refs[s].k, RandomNames(RLen(s)), s>>}
       [] k = "asgval" -> IF vals[s].k = "none" THEN {} ELSE {<<k, RandomElement(KindsOf(VLen(s))), RandomNames(VLen(s)), s>>}
       [] k = "mk" -> {<<k, s, q, RandomList(n, Vals)>>}
       [] k = "mkfrom" -> {<<k, s, t>> : t \in Slots}
       [] OTHER -> OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [v |-> v, r |-> [s \in Slots |-> Read(refs[s].e)], t |-> [s \in Slots |-> vals[s].e]]
-----------------------------------------------------------------------------
\* bound for exhaustive exploration: one thing kept at a time
OneKept == Cardinality({s \in Slots : refs[s].k # "none"}) + Cardinality({s \in Slots : vals[s].k # "none"}) <= 1
TypeOK == \A s \in Slots : (refs[s].k = "none") = (refs[s].e = <<>>) /\ Len(refs[s].e) <= 7
\* Each named variable gets the component at its place and no other variable changes.
Exactly(xs, as, w) == /\ \A p \in 1..Len(xs) : \E q \in 1..Len(xs) : xs[q] = xs[p] /\ w[xs[p]] = as[q]
                      /\ \A i \in Vars : (\A p \in 1..Len(xs) : xs[p] # i) => w[i] = v[i]
StepOK(op) ==
  /\ op[1] = "asg" => Exactly(op[4], op[5], v')
  /\ op[1] = "perm" => Exactly(op[3], Read(op[4]), v')
  /\ op[1] \in {"asg", "perm", "set", "asgs", "asgref", "asgval", "rput"} => refs' = refs /\ vals' = vals
  /\ op[1] = "rput" => \A i \in Vars : i # refs[op[3]].e[op[4]] => v'[i] = v[i]
  /\ op[1] = "vput" => v' = v /\ refs' = refs /\ \A s \in Slots : Len(vals'[s].e) = Len(vals[s].e) /\
                       \A p \in 1..Len(vals[s].e) : <<s, p>> # <<op[2], op[3]>> => vals'[s].e[p] = vals[s].e[p]
  /\ op[1] \in {"rget", "vget", "types", "hold", "mk", "mkfrom", "drop"} => v' = v
  /\ op[1] = "mkfrom" /\ refs[op[3]].k # "none" => vals'[op[2]].e = Read(refs[op[3]].e)
=============================================================================
