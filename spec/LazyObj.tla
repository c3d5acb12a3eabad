------------------------------ MODULE LazyObj ------------------------------
(* Objects created on first use (include/lazy.hpp). A lazy object has a      *)
(* creating function, shared by its copies, and possibly a created object.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS S,        \* lazy variables
          F         \* creating functions
VARIABLES z,        \* variable -> [p |-> present, f |-> its function, o |-> its object, 0 if none yet]
          e,        \* function -> how many of its next calls fail
          out
vars == <<z, e, out>>
SView == <<z, e>>
Slots == 1..S
Funs == 1..F
Reply(s, v) == [s |-> s, v |-> v]
None == [p |-> 0, f |-> 0, o |-> 0]
Held(L) == {L[s].o : s \in Slots} \ {0}                     \* the objects alive
Fresh(L) == CHOOSE i \in 1..(S + 1) : i \notin Held(L) /\ \A j \in 1..(i - 1) : j \in Held(L)

Init == z = [s \in Slots |-> None] /\ e = [f \in Funs |-> 0] /\ out = Reply("init", <<>>)
Skip == UNCHANGED <<z, e>> /\ out' = Reply("skip", <<>>)
Here(s) == z[s].p = 1
Do(op) ==
  CASE op[1] \in {"new", "end"} -> z' = [s \in Slots |-> None] /\ e' = [f \in Funs |-> 0] /\ out' = Reply("ok", <<>>)
    [] op[1] = "make" -> \* variable, function: nothing is created yet
         IF Here(op[2]) THEN Skip
         ELSE z' = [z EXCEPT ![op[2]] = [p |-> 1, f |-> op[3], o |-> 0]] /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"copy", "move"} -> \* to, from; a moved variable is then destroyed
         IF Here(op[2]) \/ ~Here(op[3]) THEN Skip
         ELSE z' = [z EXCEPT ![op[2]] = z[op[3]], ![op[3]] = IF op[1] = "move" THEN None ELSE @] /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"asg", "masg"} -> \* to, from (possibly the same)
         IF ~Here(op[2]) \/ ~Here(op[3]) \/ (op[1] = "masg" /\ op[2] = op[3]) THEN Skip
         ELSE z' = [[z EXCEPT ![op[2]] = z[op[3]]] EXCEPT ![op[3]] = IF op[1] = "masg" THEN None ELSE @] /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] = "del" -> IF ~Here(op[2]) THEN Skip ELSE z' = [z EXCEPT ![op[2]] = None] /\ e' = e /\ out' = Reply("ok", <<>>)
    [] op[1] = "arm" -> e' = [e EXCEPT ![op[2]] = op[3]] /\ z' = z /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"get", "crowd"} -> \* "crowd": then many copies are made and each is accessed; all give that object, and go
       \* variable, number of accesses in a row; reply: calls of the function, object, its function
         IF ~Here(op[2]) THEN Skip
         ELSE LET s == op[2]  f == z[s].f
              IN IF z[s].o # 0 THEN UNCHANGED <<z, e>> /\ out' = Reply("ok", <<0, z[s].o, f>>)
                 ELSE IF e[f] > 0 THEN z' = z /\ e' = [e EXCEPT ![f] = @ - 1] /\ out' = Reply("throw", <<1>>)
                 ELSE z' = [z EXCEPT ![s].o = Fresh(z)] /\ e' = e /\ out' = Reply("ok", <<1, Fresh(z), f>>)
Crowds == IF S <= 3 THEN {} ELSE {1, 2, 9, 17, 33, 255, 256, 257, 1000, 70000}
Ops == {<<"make", s, f>> : s \in Slots, f \in Funs} \cup {<<k, s, t>> : k \in {"copy", "move", "asg", "masg"}, s \in Slots, t \in Slots}
       \cup {<<"del", s>> : s \in Slots} \cup {<<"arm", f, n>> : f \in Funs, n \in 0..2} \cup {<<"get", s, n>> : s \in Slots, n \in 1..2}
       \cup {<<"crowd", s, n>> : s \in Slots, n \in Crowds}
Next == \E op \in Ops : Do(op)
Spec == Init /\ [][Next]_vars
\* observed: which variables exist, which objects are alive
Obs == [p |-> [s \in Slots |-> z[s].p], live |-> [i \in 1..(S + 1) |-> IF i \in Held(z) THEN 1 ELSE 0], bad |-> 0]
-----------------------------------------------------------------------------
TypeOK == \A s \in Slots : z[s] = None \/ (z[s].p = 1 /\ z[s].f \in Funs /\ z[s].o \in 0..(S + 1))
\* variables sharing an object have the same function
OneMaker == \A s, t \in Slots : z[s].o # 0 /\ z[s].o = z[t].o => z[s].f = z[t].f
\* a created object never changes under a variable; only an access creates, at most one; a call happens only before the first
\* success; a failed call changes nothing
StepOK(op) ==
  /\ op[1] \in {"get", "crowd"} /\ Here(op[2]) /\ z[op[2]].o # 0 => z' = z /\ out'.v[1] = 0 /\ out'.v[2] = z[op[2]].o
  /\ op[1] \in {"get", "crowd"} /\ out'.s = "throw" => z' = z /\ z[op[2]].o = 0
  /\ op[1] \in {"get", "crowd"} /\ out'.s = "ok" => z'[op[2]].o = out'.v[2] /\ \A s \in Slots \ {op[2]} : z'[s] = z[s]
  /\ op[1] \in {"get", "crowd"} /\ out'.s = "ok" /\ z[op[2]].o = 0 => out'.v[2] \notin Held(z)
  /\ op[1] \notin {"get", "crowd"} => Held(z') \subseteq Held(z)
=============================================================================
