------------------------------ MODULE LRUStore ------------------------------
(* A bounded store as seen by someone who does not care which entries it    *)
(* forgets: values are exact while resident, refused calls and failing      *)
(* copies change nothing. (include/lru_cache.hpp)                            *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N, Vals, Caps
VARIABLES cap, store, ages, out
vars == <<cap, store, ages, out>>
SView == <<cap, store, ages>>   \* the state without the last reply
Labels == 1..N
Reply(s, v) == [s |-> s, v |-> v]
Resident == {l \in Labels : store[l] # 0}
None == [l \in Labels |-> 0]
\* Which ages follow a successful store or retrieval is not this specification's business.
AgeMaps(R) == {a \in [Labels -> -1..(N-1)] : \A l \in Labels : (a[l] >= 0) <=> (l \in R)}

Init == cap = 0 /\ store = None /\ ages = [l \in Labels |-> -1] /\ out = Reply("init", <<>>)
Same == UNCHANGED <<cap, store, ages>>
Refused == Same /\ out' = Reply("throw", <<>>)

New(c) == /\ cap' = c /\ store' = None /\ ages' = [l \in Labels |-> -1]
          /\ out' = Reply(IF c > 0 THEN "ok" ELSE "throw", <<>>)
Has(l) == cap > 0 /\ Same /\ out' = Reply("ok", <<IF l \in Resident THEN 1 ELSE 0>>)
AgeOf(l) == cap > 0 /\ IF l \in Resident THEN Same /\ out' = Reply("ok", <<ages[l]>>) ELSE Refused
Get(l) == /\ cap > 0
          /\ IF l \notin Resident THEN Refused
             ELSE UNCHANGED <<cap, store>> /\ ages' \in AgeMaps(Resident) /\ out' = Reply("ok", <<store[l]>>)

\* Anything may be forgotten, nothing may change.
Stored(l, v) ==
  /\ store' \in [Labels -> Vals \cup {0}]
  /\ \A x \in Labels : IF x = l THEN store'[x] = v ELSE store'[x] \in {0, store[x]}
  /\ ages' \in AgeMaps({x \in Labels : store'[x] # 0})
  /\ UNCHANGED cap /\ out' = Reply("ok", <<>>)
Put(l, v) == cap > 0 /\ IF l \in Resident THEN Refused ELSE Stored(l, v)

\* put(l, get(m)): the value stored is the one the cache itself holds, even when
\* the entry it belongs to is the one that has to go.
PutFrom(l, m) ==
  /\ cap > 0
  /\ IF m \notin Resident THEN Refused
     ELSE IF l \in Resident
          THEN UNCHANGED <<cap, store>> /\ ages' \in AgeMaps(Resident) /\ out' = Reply("throw", <<>>)
          ELSE Stored(l, store[m])

\* The k-th copy of a label or value made from here on throws: the call fails and
\* nothing has happened, or it did not make that many copies and has succeeded.
PutFault(l, v, k) ==
  /\ cap > 0
  /\ IF l \in Resident THEN Refused
     ELSE Stored(l, v) \/ (Same /\ out' = Reply("fault", <<>>))

\* What is in a copy of the store in which l was then used; the store itself is as before.
Copied(l, v) ==
  /\ cap > 0 /\ Same
  /\ \E kept \in (IF l \in Resident THEN {Resident} ELSE SUBSET Resident) :
       out' = Reply("ok", [x \in Labels |-> IF x = l /\ l \notin Resident THEN v ELSE IF x \in kept THEN store[x] ELSE 0])
Become == cap > 0 /\ Same /\ out' = Reply("ok", <<>>)

\* Runs of calls as one step, for large caches (only with the outcome given): storing a .. b in turn, where the reply
\* says which calls were not refused; retrieving a .. b in turn; retrieving one label n times.
Fill(a, b, v) ==
  /\ cap > 0 /\ UNCHANGED cap /\ out'.s = "ok" /\ Len(out'.v) = b - a + 1
  /\ \A x \in Labels :
       IF x < a \/ x > b THEN store'[x] \in {0, store[x]}
       ELSE IF out'.v[x - a + 1] = 0 THEN store[x] # 0 /\ store'[x] \in {0, store[x]}
       ELSE out'.v[x - a + 1] = 1 /\ store'[x] \in {0, v}
  /\ store'[b] # 0
  /\ \A x \in a..b : store[x] = 0 => out'.v[x - a + 1] = 1
  /\ ages' \in AgeMaps({x \in Labels : store'[x] # 0})
Touch(a, b) == cap > 0 /\ UNCHANGED <<cap, store>> /\ ages' \in AgeMaps(Resident) /\ out' = Reply("ok", [i \in 1..(b - a + 1) |-> store[a + i - 1]])
Again(l) == cap > 0 /\ l \in Resident /\ UNCHANGED <<cap, store>> /\ ages' \in AgeMaps(Resident) /\ out' = Reply("ok", <<store[l]>>)

Do(op) == CASE op[1] = "new" -> New(op[2])
            [] op[1] = "copied" -> Copied(op[2], op[3])
            [] op[1] = "become" -> Become
            [] op[1] = "has" -> Has(op[2])
            [] op[1] = "age" -> AgeOf(op[2])
            [] op[1] = "get" -> Get(op[2])
            [] op[1] = "put" -> Put(op[2], op[3])
            [] op[1] = "fill" -> Fill(op[2], op[3], op[4])
            [] op[1] = "touch" -> Touch(op[2], op[3])
            [] op[1] = "again" -> Again(op[2])
            [] op[1] = "putfrom" -> PutFrom(op[2], op[3])
            [] op[1] = "putfault" -> PutFault(op[2], op[3], op[4])
Ops == IF cap = 0 THEN {<<"new", c>> : c \in Caps}
       ELSE {<<o, l>> : o \in {"has", "age", "get"}, l \in Labels}
            \cup {<<"become">>} \cup {<<"copied", l, v>> : l \in Labels, v \in Vals}
            \cup {<<"put", l, v>> : l \in Labels, v \in Vals}
            \cup {<<"putfrom", l, m>> : l \in Labels, m \in Labels}
            \cup {<<"putfault", l, v, k>> : l \in Labels, v \in Vals, k \in 1..4}
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [store |-> store, ages |-> ages]
-----------------------------------------------------------------------------
TypeOK == store \in [Labels -> Vals \cup {0}] /\ ages \in [Labels -> -1..(N-1)]
AgesOfResidents == \A l \in Labels : (ages[l] >= 0) <=> (l \in Resident)
RefusalChangesNothing == [][out'.s = "throw" /\ cap' > 0 => store' = store]_vars
FaultChangesNothing == [][out'.s = "fault" => UNCHANGED <<cap, store, ages>>]_vars
ValuesNeverChange == [][\A l \in Labels : store[l] # 0 /\ store'[l] # 0 /\ cap' = cap => store'[l] = store[l]]_vars
StepOK(op) == op[1] \in {"has", "copied", "become"} => UNCHANGED SView
=============================================================================
