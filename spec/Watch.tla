-------------------------------- MODULE Watch --------------------------------
(* Stopwatches (include/stopwatch.hpp) against the passage of time. A time is*)
(* <<seconds, nanoseconds>>. The wall clock is adjusted at will; it is part  *)
(* of the state because the environment has it, and no stopwatch depends on  *)
(* it.                                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,        \* stopwatches
          Units,    \* of them: 1 counts seconds, 1000 milliseconds, 1000000 microseconds
          Passes,   \* amounts of time that pass (numbers of Amounts)
          Jumps     \* adjustments of the wall clock, seconds
VARIABLES now,      \* time that has passed
          wall,     \* what the wall clock was set forward by, seconds
          w,        \* stopwatch -> <<unit, last restart, last click>>; unit 0: none
          out
vars == <<now, wall, w, out>>
G == 1000000000
Reply(s, v) == [s |-> s, v |-> v]
Norm(s, n) == <<s + n \div G, n % G>>
Add(x, y) == Norm(x[1] + y[1], x[2] + y[2])
Sub(x, y) == Norm(x[1] - y[1], x[2] - y[2])      \* \div rounds down, so nanoseconds stay 0..G-1
Leq(x, y) == x[1] < y[1] \/ (x[1] = y[1] /\ x[2] <= y[2])
None == <<0, <<0, 0>>, <<0, 0>>>>
\* what matters of the state: times relative to now
SView == <<[s \in 1..S |-> IF w[s] = None THEN <<>> ELSE <<w[s][1], Sub(now, w[s][2]), Sub(now, w[s][3])>>], wall>>
Steps == <<-3600, 3600, -100000, -1, 1>>
Amounts == <<<<0, 1>>, <<0, 999>>, <<0, 1000>>, <<0, 999999>>, <<0, 1000000>>, <<0, 500000000>>, <<0, 999999999>>, <<1, 0>>, <<59, 999999999>>, <<3600, 1>>, <<100000, 123456789>>, <<30000000, 0>>>>
\* the reading: whole units between last restart and last click, as <<seconds, units besides>>
Read(x) == LET d == Sub(x[3], x[2]) IN <<d[1], d[2] \div (G \div x[1])>>
Init == now = <<1000, 0>> /\ wall = 0 /\ w = [s \in 1..S |-> None] /\ out = Reply("init", <<>>)
Skip == UNCHANGED <<now, wall, w>> /\ out' = Reply("skip", <<>>)
One == <<1, 0>>
Do(op) ==
  CASE op[1] \in {"new", "end"} -> now' = <<1000, 0>> /\ wall' = 0 /\ w' = [s \in 1..S |-> None] /\ out' = Reply("ok", <<>>)
    [] op[1] = "pass" -> now' = Add(now, Amounts[op[2]]) /\ UNCHANGED <<wall, w>> /\ out' = Reply("ok", <<>>)
    [] op[1] = "jump" -> wall' = wall + Steps[op[2]] /\ UNCHANGED <<now, w>> /\ out' = Reply("ok", <<>>)
    [] op[1] = "make" -> w' = [w EXCEPT ![op[2]] = <<op[3], now, now>>] /\ UNCHANGED <<now, wall>> /\ out' = Reply("ok", <<>>)
    [] op[1] = "cp" -> w' = [w EXCEPT ![op[2]] = w[op[3]]] /\ UNCHANGED <<now, wall>> /\ out' = Reply("ok", <<>>)
    [] w[op[2]] = None -> Skip
    \* both return the stopwatch itself
    [] op[1] = "restart" -> w' = [w EXCEPT ![op[2]] = <<@[1], now, now>>] /\ UNCHANGED <<now, wall>> /\ out' = Reply("ok", <<1>>)
    [] op[1] = "click" -> w' = [w EXCEPT ![op[2]] = <<@[1], @[2], now>>] /\ UNCHANGED <<now, wall>> /\ out' = Reply("ok", <<1>>)
    \* the same while a second passes during the call: the moment recorded is one and lies within it
    [] op[1] = "slowrestart" -> \E t \in {now, Add(now, One)} : w' = [w EXCEPT ![op[2]] = <<@[1], t, t>>] /\ now' = Add(now, One) /\ wall' = wall /\ out' = Reply("ok", <<1>>)
    [] op[1] = "slowclick" -> \E t \in {now, Add(now, One)} : w' = [w EXCEPT ![op[2]] = <<@[1], @[2], t>>] /\ now' = Add(now, One) /\ wall' = wall /\ out' = Reply("ok", <<1>>)
    \* restart and click chained: x.restart().click()
    [] op[1] = "chain" -> w' = [w EXCEPT ![op[2]] = <<@[1], now, now>>] /\ UNCHANGED <<now, wall>> /\ out' = Reply("ok", <<1>>)
    [] op[1] = "secs" -> UNCHANGED <<now, wall, w>> /\ out' = Reply("ok", Read(w[op[2]]))
Kinds == {"pass", "jump", "make", "cp", "restart", "click", "slowrestart", "slowclick", "chain", "secs"}
OpsOf(kk) == CASE kk = "pass" -> {<<kk, i>> : i \in Passes}
              [] kk = "jump" -> {<<kk, i>> : i \in Jumps}
              [] kk = "make" -> {<<kk, s, u>> : s \in 1..S, u \in Units}
              [] kk = "cp" -> IF S = 1 THEN {} ELSE {<<kk, s, t>> : s \in 1..S, t \in 1..S}
              [] OTHER -> {<<kk, s>> : s \in 1..S}
Next == \E kk \in Kinds : \E op \in OpsOf(kk) : Do(op)
Spec == Init /\ [][Next]_vars
\* bounds of the exhaustive exploration
Soon == \A s \in 1..S : w[s] # None => Leq(Sub(now, w[s][2]), <<3, 0>>) /\ Sub(now, w[s][2])[2] % 1000 <= 3
Near == wall \in -4000..4000
\* bounds of the random one: the numbers stay within TLC's
Early == now[1] < 2000000000
ReadOf(x) == IF x = None THEN <<0, 0>> ELSE Read(x)
Reading(s) == ReadOf(w[s])
Obs == [u |-> [s \in 1..S |-> w[s][1]], r |-> [s \in 1..S |-> Reading(s)], wall |-> wall]
-----------------------------------------------------------------------------
NeverNegative == \A s \in 1..S : Leq(w[s][2], w[s][3]) /\ (w[s] # None => Leq(w[s][3], now))
StepOK(op) ==
  /\ op[1] \in {"restart", "make", "slowrestart", "chain"} /\ out'.s = "ok" => ReadOf(w'[op[2]]) = <<0, 0>>
  \* it does not change by itself, nor with the wall clock
  /\ op[1] \in {"pass", "jump", "secs"} => \A s \in 1..S : ReadOf(w'[s]) = Reading(s)
  /\ op[1] # "new" /\ op[1] # "end" => \A s \in 1..S : (op[1] \in {"pass", "jump"} \/ s # op[2]) => w'[s] = w[s]
=============================================================================
