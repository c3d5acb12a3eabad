------------------------------ MODULE CallStack ------------------------------
(* Stack traces (src/stack_trace.cpp) against the stack of active calls. The *)
(* functions called are of several kinds, some without a name the system     *)
(* knows. A trace is a list of lines; each is classified by which function's *)
(* name it has. The calls below the outermost one modelled (the program's    *)
(* own) are known only by their number.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Enabled,  \* whether tracing is built in
          Deepest,  \* depth of calls explored
          Runs      \* lengths of runs of calls made at once
VARIABLES stack,    \* kinds of the active calls, outermost first
          out
vars == <<stack, out>>
SView == stack
Reply(s, v) == [s |-> s, v |-> v]
Limit == 128        \* lines at most
\* a free function, a C function, a template, a member, a static function, one in an unnamed namespace, one with a very long name
Functions == 1..7
Named == {1, 2, 3, 4, 7}
Unknown == -1       \* a line with no name of ours
Asking == 99        \* the function that asks for the trace
Tracing == 0        \* stack_trace itself
Min(x, y) == IF x < y THEN x ELSE y
Line(f) == IF f \in Named THEN f ELSE Unknown
\* lines for the calls modelled, innermost first
Lines == <<Tracing, Asking>> \o [i \in 1..Len(stack) |-> Line(stack[Len(stack) + 1 - i])]
\* v = <<lines, active calls, whether the stream is usable, whether its state is kept, storage not released, one class per line>>
Legal(op, v) ==
  op[1] # "trace" \/
  /\ Len(v) >= 5 /\ v[3] = 1 /\ v[4] = 1 /\ v[5] = 0 /\ Len(v) = 5 + v[1]
  /\ IF ~Enabled THEN v[1] = 0
     ELSE \E extra \in 0..2 :        \* the tracing may itself be several calls
            /\ v[2] > Len(Lines)
            /\ v[1] = Min(Limit, v[2] + extra)
            /\ \A i \in 1..v[1] : IF i <= extra THEN v[5 + i] = Unknown
                                  ELSE IF i - extra <= Len(Lines) THEN v[5 + i] = Lines[i - extra]
                                  ELSE v[5 + i] = Unknown
Init == stack = <<>> /\ out = Reply("init", <<>>)
Result(op, v) ==
  /\ stack' = CASE op[1] \in {"new", "end"} -> <<>>
                [] op[1] = "call" -> Append(stack, op[2])
                [] op[1] = "run" -> stack \o [i \in 1..op[3] |-> op[2]]
                [] op[1] = "ret" -> SubSeq(stack, 1, Len(stack) - Min(op[2], Len(stack)))
                [] OTHER -> stack
  /\ out' = Reply("ok", IF op[1] = "trace" THEN v ELSE <<>>)
Base == 10
Candidates(op) ==
  IF op[1] # "trace" THEN {<<>>}
  ELSE LET n == IF Enabled THEN Min(Limit, Len(Lines) + Base) ELSE 0
       IN {<<n, Len(Lines) + Base, 1, 1, 0>> \o [i \in 1..n |-> IF i <= Len(Lines) THEN Lines[i] ELSE Unknown]}
Do(op) == \E v \in Candidates(op) : Result(op, v)
Kinds == {"call", "run", "ret", "trace"}
OpsOf(kk) == CASE kk = "call" -> IF Len(stack) >= Deepest THEN {} ELSE {<<kk, f>> : f \in Functions}
              [] kk = "run" -> {<<kk, f, n>> : f \in Functions, n \in {m \in Runs : Len(stack) + m <= Deepest}}
              [] kk = "ret" -> IF stack = <<>> THEN {} ELSE {<<kk, n>> : n \in {1, 2} \cup Runs}
              [] kk = "trace" -> {<<kk, m>> : m \in 1..3}        \* plain; with the stream formatted; twice
Next == \E kk \in Kinds : \E op \in OpsOf(kk) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [depth |-> Len(stack)]
-----------------------------------------------------------------------------
StepOK(op) == Legal(op, out'.v) /\ (op[1] = "trace" => stack' = stack)
=============================================================================
