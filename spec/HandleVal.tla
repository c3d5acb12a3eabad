----------------------------- MODULE HandleVal -----------------------------
(* Handles: copies share an object until one of them changes it              *)
(* (include/handle.hpp). Objects are numbered by the first handle that       *)
(* refers to them, so that identity is only visible as sharing.              *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S,        \* handles
          Vals      \* values of objects
VARIABLES h,        \* handle -> 0 if it does not exist, else the first handle sharing its object
          v,        \* handle -> value of its object (0 if it does not exist)
          e,        \* does the next copy of an object fail?
          out
vars == <<h, v, e, out>>
SView == <<h, v, e>>
Slots == 1..S
Reply(s, w) == [s |-> s, v |-> w]
Here(s) == h[s] # 0
\* renumber so that every group carries the number of its first member; g is any labelling, 0 for absent
Canon(g) == [s \in Slots |-> IF g[s] = 0 THEN 0 ELSE CHOOSE t \in Slots : g[t] = g[s] /\ \A u \in Slots : g[u] = g[s] => t <= u]
Lone == S + 1                                                   \* a label no existing group has
Shared(s) == \E t \in Slots \ {s} : h[t] = h[s]
Put(g, w) == h' = Canon(g) /\ v' = w
Init == h = [s \in Slots |-> 0] /\ v = [s \in Slots |-> 0] /\ e = 0 /\ out = Reply("init", <<>>)
Skip == UNCHANGED <<h, v, e>> /\ out' = Reply("skip", <<>>)
Makes == {"raw", "shptr", "ref", "mref", "der", "derx", "derived", "make"}   \* ways to construct from an object
Copying == {"ref", "derx"}                                      \* those that copy the object given
Reads == {"cref", "ref", "cptr", "ptr", "rcptr", "rptr", "sref", "sptr", "mcptr", "mptr", "conv"}
Writes == {"ref", "ptr", "rptr", "sref", "sptr", "mptr"}
Do(op) ==
  CASE op[1] \in {"new", "end"} -> Put([s \in Slots |-> 0], [s \in Slots |-> 0]) /\ e' = 0 /\ out' = Reply("ok", <<>>)
    [] op[1] = "arm" -> UNCHANGED <<h, v>> /\ e' = 1 /\ out' = Reply("ok", <<>>)
    [] op[1] = "disarm" -> UNCHANGED <<h, v>> /\ e' = 0 /\ out' = Reply("ok", <<>>)
    [] op[1] = "mk" -> \* way, handle, value
         IF Here(op[3]) THEN Skip
         ELSE IF op[2] \in Copying /\ e = 1 THEN UNCHANGED <<h, v>> /\ e' = 0 /\ out' = Reply("throw", <<>>)
         ELSE Put([h EXCEPT ![op[3]] = Lone], [v EXCEPT ![op[3]] = op[4]]) /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] = "mk2" -> \* two handles from one shared pointer
         IF Here(op[2]) \/ Here(op[3]) \/ op[2] = op[3] THEN Skip
         ELSE Put([h EXCEPT ![op[2]] = Lone, ![op[3]] = Lone], [v EXCEPT ![op[2]] = op[4], ![op[3]] = op[4]]) /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"cp", "mv"} -> \* construct from another; one moved from is then destroyed
         IF Here(op[2]) \/ ~Here(op[3]) THEN Skip
         ELSE LET s == op[2] t == op[3] m == op[1] = "mv"
              IN Put([h EXCEPT ![s] = h[t], ![t] = IF m THEN 0 ELSE @], [v EXCEPT ![s] = v[t], ![t] = IF m THEN 0 ELSE @]) /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"asg", "masg"} ->
         IF ~Here(op[2]) \/ ~Here(op[3]) \/ (op[1] = "masg" /\ op[2] = op[3]) THEN Skip
         ELSE LET s == op[2] t == op[3] m == op[1] = "masg"
              IN Put([[h EXCEPT ![s] = h[t]] EXCEPT ![t] = IF m THEN 0 ELSE @], [[v EXCEPT ![s] = v[t]] EXCEPT ![t] = IF m THEN 0 ELSE @]) /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] = "del" -> IF ~Here(op[2]) THEN Skip ELSE Put([h EXCEPT ![op[2]] = 0], [v EXCEPT ![op[2]] = 0]) /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] = "rd" -> \* way, handle: the value, and no copy is made
         IF ~Here(op[3]) THEN Skip ELSE UNCHANGED <<h, v, e>> /\ out' = Reply("ok", <<v[op[3]], 0>>)
    [] op[1] = "wr" -> \* way, handle, value: what the handle had before
         IF ~Here(op[3]) THEN Skip
         ELSE LET s == op[3]
                  Done == Put([h EXCEPT ![s] = Lone], [v EXCEPT ![s] = op[4]]) /\ out' = Reply("ok", <<v[s]>>)
                  Fails == UNCHANGED <<h, v>> /\ e' = 0 /\ out' = Reply("throw", <<>>)
              IN IF e = 0 THEN Done /\ e' = 0
                 ELSE IF Shared(s) THEN Fails              \* a copy is needed, and fails
                 ELSE Fails \/ (Done /\ e' = 1)            \* an object of one handle only may be copied or not
    [] op[1] = "crowd" -> \* way, handle, number, value: a write while so many copies of the handle exist for the time; what it had, what they keep
         IF ~Here(op[3]) THEN Skip
         ELSE IF e = 1 THEN UNCHANGED <<h, v>> /\ e' = 0 /\ out' = Reply("throw", <<>>)
         ELSE Put([h EXCEPT ![op[3]] = Lone], [v EXCEPT ![op[3]] = op[5]]) /\ e' = 0 /\ out' = Reply("ok", <<v[op[3]], v[op[3]]>>)
Crowds == {1, 2, 3, 4, 8, 9, 16, 64, 127, 128, 254, 255, 256, 257, 1000, 65535, 65536}
Kinds1 == {"arm", "disarm", "mk", "mk2", "cp", "mv", "asg", "masg", "del", "rd", "wr"}
Kinds == IF S <= 3 THEN Kinds1 ELSE Kinds1 \cup {"crowd"}
Pairs(k) == {<<k, s, t>> : s \in Slots, t \in Slots}
OpsOf(k) ==
  CASE k \in {"arm", "disarm"} -> {<<k>>}
    [] k = "mk" -> {<<k, w, s, x>> : w \in Makes, s \in Slots, x \in Vals}
    [] k = "mk2" -> {<<k, s, t, x>> : s \in Slots, t \in Slots, x \in Vals}
    [] k \in {"cp", "mv", "asg", "masg"} -> Pairs(k)
    [] k = "del" -> {<<k, s>> : s \in Slots}
    [] k = "rd" -> {<<k, w, s>> : w \in Reads, s \in Slots}
    [] k = "wr" -> {<<k, w, s, x>> : w \in Writes, s \in Slots, x \in Vals}
    [] k = "crowd" -> {<<k, w, s, n, x>> : w \in Writes, s \in Slots, n \in Crowds, x \in Vals}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
\* observed: who shares with whom, each handle's value, and how many objects are alive
Groups == {h[s] : s \in Slots} \ {0}
Obs == [h |-> h, v |-> v, live |-> Cardinality(Groups), bad |-> 0]
-----------------------------------------------------------------------------
TypeOK == /\ h = Canon(h)
          /\ \A s, t \in Slots : h[s] # 0 /\ h[s] = h[t] => v[s] = v[t]
          /\ \A s \in Slots : h[s] = 0 <=> v[s] = 0
\* isolation: no step changes the value of a handle it does not name; a write is seen by its handle; a read changes nothing
Named(op) == CASE op[1] \in {"mk", "rd", "wr", "crowd"} -> {op[3]}
               [] op[1] \in {"mk2", "mv", "masg"} -> {op[2], op[3]}
               [] op[1] \in {"cp", "asg", "del"} -> {op[2]}
               [] op[1] \in {"new", "end"} -> Slots
               [] OTHER -> {}
StepOK(op) ==
  /\ \A s \in Slots \ Named(op) : v'[s] = v[s]
  /\ op[1] = "wr" /\ out'.s = "ok" => v'[op[3]] = op[4] /\ \A t \in Slots \ {op[3]} : h'[t] # h'[op[3]]
  /\ op[1] = "crowd" /\ out'.s = "ok" => v'[op[3]] = op[5] /\ \A t \in Slots \ {op[3]} : h'[t] # h'[op[3]]
  /\ op[1] \in {"rd", "arm"} \/ out'.s \in {"skip", "throw"} => h' = h /\ v' = v
  /\ op[1] = "cp" /\ out'.s = "ok" => h'[op[2]] = h'[op[3]] /\ v'[op[2]] = v[op[3]] /\ h'[op[2]] # 0
=============================================================================
