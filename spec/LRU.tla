-------------------------------- MODULE LRU --------------------------------
(* A least-recently-used cache as its users see it: the resident labels in  *)
(* order of their last successful store or retrieval, most recent first,    *)
(* and the value of each. (include/lru_cache.hpp)                            *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

CONSTANTS N,        \* labels are 1..N
          Vals,     \* values are positive integers; 0 stands for none
          Caps,     \* capacities a cache is created with
          Wide      \* TRUE: many labels, with runs of calls as single steps

VARIABLES cap,      \* capacity; 0 while there is no cache
          order,    \* resident labels, most recently used first
          val,      \* label -> value, 0 if not resident
          out       \* reply to the last call

vars == <<cap, order, val, out>>
SView == <<cap, order, val>>   \* the state without the last reply
Labels == 1..N
Reply(s, v) == [s |-> s, v |-> v]
Resident == {order[i] : i \in 1..Len(order)}
Age(l) == IF l \in Resident THEN CHOOSE a \in 0..(Len(order)-1) : order[a+1] = l ELSE -1
ToFront(l) == <<l>> \o SelectSeq(order, LAMBDA x : x # l)

Init == cap = 0 /\ order = <<>> /\ val = [l \in Labels |-> 0] /\ out = Reply("init", <<>>)

\* Creating a cache of capacity zero is refused.
New(c) == /\ cap' = c /\ order' = <<>> /\ val' = [l \in Labels |-> 0]
          /\ out' = Reply(IF c > 0 THEN "ok" ELSE "throw", <<>>)

Has(l) == /\ cap > 0 /\ UNCHANGED <<cap, order, val>>
          /\ out' = Reply("ok", <<IF l \in Resident THEN 1 ELSE 0>>)

AgeOf(l) == /\ cap > 0 /\ UNCHANGED <<cap, order, val>>
            /\ out' = IF l \in Resident THEN Reply("ok", <<Age(l)>>) ELSE Reply("throw", <<>>)

Get(l) == /\ cap > 0 /\ UNCHANGED <<cap, val>>
          /\ IF l \in Resident
             THEN order' = ToFront(l) /\ out' = Reply("ok", <<val[l]>>)
             ELSE order' = order /\ out' = Reply("throw", <<>>)

\* Storing a label that is resident is refused; otherwise it becomes the most
\* recent, and the least recent is forgotten if the cache was full.
Put(l, v) ==
  /\ cap > 0 /\ UNCHANGED cap
  /\ IF l \in Resident
     THEN UNCHANGED <<order, val>> /\ out' = Reply("throw", <<>>)
     ELSE /\ order' = <<l>> \o IF Len(order) < cap THEN order ELSE SubSeq(order, 1, cap - 1)
          /\ LET forgotten == {order[i] : i \in cap..Len(order)}
             IN  val' = [x \in Labels |-> IF x = l THEN v ELSE IF x \in forgotten THEN 0 ELSE val[x]]
          /\ out' = Reply("ok", <<>>)

\* Runs of calls as one step, so that large caches can be followed: storing
\* labels a, a+1 .. b in turn; retrieving a .. b in turn; retrieving one label
\* many times. The reply says which of the calls were refused.
Line(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]
In(s, x) == \E i \in 1..Len(s) : s[i] = x
FillOne(acc, x) ==
  IF In(acc.order, x) THEN [acc EXCEPT !.done = Append(@, 0)]
  ELSE [order |-> <<x>> \o (IF Len(acc.order) < cap THEN acc.order ELSE SubSeq(acc.order, 1, cap - 1)),
        done |-> Append(acc.done, 1)]
Fill(a, b, v) ==
  /\ cap > 0 /\ UNCHANGED cap
  /\ IF order = <<>> /\ b - a < cap   \* the same, without going through the labels one by one
     THEN /\ order' = [i \in 1..(b - a + 1) |-> b - i + 1] /\ val' = [x \in Labels |-> IF a <= x /\ x <= b THEN v ELSE 0]
          /\ out' = Reply("ok", [i \in 1..(b - a + 1) |-> 1])
     ELSE \E r \in {FoldLeft(FillOne, [order |-> order, done |-> <<>>], Line(a, b))} :
       /\ order' = r.order
       /\ val' = [x \in Labels |-> IF ~In(r.order, x) THEN 0
                                   ELSE IF a <= x /\ x <= b /\ r.done[x - a + 1] = 1 THEN v ELSE val[x]]
       /\ out' = Reply("ok", r.done)
TouchOne(acc, x) == IF In(acc, x) THEN <<x>> \o SelectSeq(acc, LAMBDA y : y # x) ELSE acc
Touch(a, b) ==
  /\ cap > 0 /\ UNCHANGED <<cap, val>>
  /\ order' = FoldLeft(TouchOne, order, Line(a, b))
  /\ out' = Reply("ok", [i \in 1..(b - a + 1) |-> val[a + i - 1]])
Again(l, n) == /\ cap > 0 /\ l \in Resident /\ UNCHANGED <<cap, val>> /\ order' = ToFront(l)
               /\ out' = Reply("ok", <<val[l]>>)

\* A copy of the cache, in which l is then used (stored, or retrieved if it is there): the reply says what is in the
\* copy afterwards, and the cache itself is as before. It may also be replaced by a copy of itself.
Copied(l, v) ==
  /\ cap > 0 /\ UNCHANGED <<cap, order, val>>
  /\ LET kept == IF l \in Resident \/ Len(order) < cap THEN order ELSE SubSeq(order, 1, cap - 1)
     IN out' = Reply("ok", [x \in Labels |-> IF x = l /\ l \notin Resident THEN v ELSE IF \E i \in 1..Len(kept) : kept[i] = x THEN val[x] ELSE 0])
Become == cap > 0 /\ UNCHANGED <<cap, order, val>> /\ out' = Reply("ok", <<>>)

Do(op) == CASE op[1] = "new" -> New(op[2])
            [] op[1] = "copied" -> Copied(op[2], op[3])
            [] op[1] = "become" -> Become
            [] op[1] = "fill" -> Fill(op[2], op[3], op[4])
            [] op[1] = "touch" -> Touch(op[2], op[3])
            [] op[1] = "again" -> Again(op[2], op[3])
            [] op[1] = "has" -> Has(op[2])
            [] op[1] = "age" -> AgeOf(op[2])
            [] op[1] = "get" -> Get(op[2])
            [] op[1] = "put" -> Put(op[2], op[3])

Vast == N > 60000     \* one run fills the cache, then single calls
Kinds == IF cap = 0 THEN {"new"} ELSE IF Vast /\ order = <<>> THEN {"fill"} ELSE IF Vast THEN {"age", "get", "put"} ELSE {"has", "age", "get", "put", "become"} \cup IF Wide THEN {"fill", "touch", "again"} ELSE {"copied"}
Lens == IF Vast THEN {65600} ELSE {1, 2, 3, 17, 33, 65, 129, 255, 256, 257, 300}
Runs == IF Vast THEN {} ELSE {s \in {<<a, a + n - 1>> : a \in Labels, n \in Lens} : s[2] <= N}
OpsOf(k) == CASE k = "new" -> {<<k, c>> : c \in Caps}
              [] k \in {"has", "age", "get"} -> {<<k, x>> : x \in Labels}
              [] k = "become" -> {<<k>>}
              [] k \in {"put", "copied"} -> {<<k, x, v>> : x \in Labels, v \in Vals}
              [] k = "fill" -> {<<k, s[1], s[2], v>> : s \in Runs, v \in Vals}
              [] k = "touch" -> {<<k, s[1], s[2]>> : s \in Runs}
              [] k = "again" -> {<<k, x, n>> : x \in Resident, n \in {3, 300, 70000}}
Pick(k) == IF ~Wide \/ k \in {"new", "again", "become"} THEN OpsOf(k)
           ELSE LET n == RandomElement(Lens) a == RandomElement(1..(N - n + 1)) v == RandomElement(Vals)
                IN CASE k = "fill" -> {<<k, a, a + n - 1, v>>}
                     [] k = "touch" -> {<<k, a, a + n - 1>>}
                     [] k = "put" -> {<<k, IF Vast THEN RandomElement((N - 10)..N) ELSE a, v>>}
                     [] Vast -> {<<k, RandomElement({order[Len(order)], order[Len(order) - 1], order[65536], order[65537], order[2], N})>>}
                     [] OTHER -> {<<k, a>>}

Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars

\* What can be observed of the cache without changing it.
WatchedLabels == SelectSeq(IF Vast THEN [x \in Labels |-> x] ELSE <<>>, LAMBDA x : x <= 13 \/ x > N - 13 \/ x % 3000 = 0)
Obs == IF Vast THEN [size |-> Len(order), max |-> cap,
                     ages |-> [i \in 1..Len(WatchedLabels) |-> IF val[WatchedLabels[i]] # 0 THEN Age(WatchedLabels[i]) ELSE -1]] ELSE
       IF Wide THEN [size |-> Len(order), max |-> cap, byage |-> order, others |-> 0] ELSE
       [size |-> Len(order), max |-> cap,
        ages |-> [l \in Labels |-> Age(l)],
        has  |-> [l \in Labels |-> IF l \in Resident THEN 1 ELSE 0]]

-----------------------------------------------------------------------------
TypeOK == /\ cap \in Caps \cup {0} /\ order \in Seq(Labels) /\ val \in [Labels -> Vals \cup {0}]
Bounded == Len(order) <= cap
NoRepeat == \A i, j \in 1..Len(order) : order[i] = order[j] => i = j
AgesArePositions == {Age(l) : l \in Resident} = 0..(Len(order) - 1)
ValuesOfResidents == \A l \in Labels : (val[l] # 0) <=> (l \in Resident)
\* Forgetting happens only when storing into a full cache, and forgets only the oldest.
ForgetsOldestOnly ==
  [][\A l \in Resident : (l \notin Resident' /\ cap' = cap /\ cap > 0) =>
        (Len(order) = cap /\ Age(l) = cap - 1 /\ Len(order') = cap)]_vars
ValuesNeverChange == [][\A l \in Resident : l \in Resident' /\ cap' = cap => val'[l] = val[l]]_vars
\* Every LRU cache is a correct store: forgetting some label, values exact.
Store == INSTANCE LRUStore WITH store <- val, ages <- [l \in Labels |-> Age(l)]
RefinesStore == Store!Spec
StepOK(op) == op[1] \in {"has", "copied", "become"} => UNCHANGED SView
=============================================================================
