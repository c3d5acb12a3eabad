------------------------------ MODULE LRUAges ------------------------------
(* The algorithm of include/lru_cache.hpp: no order is kept, only an age    *)
(* per resident label, incremented in the loops of get() and put(). Checked *)
(* to implement LRU; an independent use-time clock says what "recent" is.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Vals, Caps, Wide
VARIABLES cap, age, val, out,
          used, clock      \* history: when each resident label was last stored or retrieved
vars == <<cap, age, val, out, used, clock>>
Labels == 1..N
Reply(s, v) == [s |-> s, v |-> v]
Resident == {l \in Labels : age[l] >= 0}

Init == /\ cap = 0 /\ age = [l \in Labels |-> -1] /\ val = [l \in Labels |-> 0]
        /\ out = Reply("init", <<>>) /\ used = [l \in Labels |-> 0] /\ clock = 0
New(c) == /\ cap = 0 /\ cap' = c /\ out' = Reply(IF c > 0 THEN "ok" ELSE "throw", <<>>)
          /\ UNCHANGED <<age, val, used, clock>>
Tick(l) == clock' = clock + 1 /\ used' = [used EXCEPT ![l] = clock + 1]

Get(l) == /\ cap > 0 /\ UNCHANGED <<cap, val>>
          /\ IF l \notin Resident THEN out' = Reply("throw", <<>>) /\ UNCHANGED <<age, used, clock>>
             ELSE /\ age' = [x \in Labels |-> IF x = l THEN 0
                                              ELSE IF x \in Resident /\ age[x] < age[l] THEN age[x] + 1 ELSE age[x]]
                  /\ out' = Reply("ok", <<val[l]>>) /\ Tick(l)
Put(l, v) ==
  /\ cap > 0 /\ UNCHANGED cap
  /\ IF l \in Resident THEN out' = Reply("throw", <<>>) /\ UNCHANGED <<age, val, used, clock>>
     ELSE LET full == Cardinality(Resident) >= cap
              gone(x) == full /\ age[x] = cap - 1
          IN /\ age' = [x \in Labels |-> IF x = l THEN 0 ELSE IF x \notin Resident \/ gone(x) THEN -1 ELSE age[x] + 1]
             /\ val' = [x \in Labels |-> IF x = l THEN v ELSE IF gone(x) THEN 0 ELSE val[x]]
             /\ out' = Reply("ok", <<>>) /\ Tick(l)
Next == \/ \E c \in Caps : New(c)
        \/ \E l \in Labels : Get(l)
        \/ \E l \in Labels, v \in Vals : Put(l, v)
Spec == Init /\ [][Next]_vars

RECURSIVE ByAge(_)
ByAge(k) == IF k = 0 THEN <<>> ELSE ByAge(k-1) \o <<CHOOSE l \in Labels : age[l] = k - 1>>
L == INSTANCE LRU WITH order <- ByAge(Cardinality(Resident))
RefinesLRU == L!Spec
Permutation == {age[l] : l \in Resident} = 0..(Cardinality(Resident) - 1)
AgesByUse == \A a, b \in Resident : used[a] > used[b] <=> age[a] < age[b]
EvictsLeastRecent == [][\A l \in Resident : l \notin Resident' =>
                          (\A x \in Resident : used[x] >= used[l]) /\ Cardinality(Resident) = cap]_vars
ClockBound == clock < 2 * N + 2
AView == <<cap, age, val, out, {<<a, b>> \in Labels \X Labels : used[a] < used[b]}, clock < 2 * N + 2>>
=============================================================================
