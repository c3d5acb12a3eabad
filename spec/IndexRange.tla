----------------------------- MODULE IndexRange -----------------------------
(* Ranges of indices (include/range.hpp) over the whole of the 64-bit        *)
(* unsigned integers. A number is four 16-bit digits, most significant first,*)
(* so that the arithmetic here is exact at every magnitude.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word64
CONSTANTS S,        \* ranges
          I,        \* iterators
          W,        \* longest walk performed
          Span,     \* spans of random ranges
          Few       \* whether only the extreme points are explored exhaustively
VARIABLES rng,      \* range -> <<start, stop>>
          it,       \* iterator -> the index it stands at
          out
vars == <<rng, it, out>>
SView == <<rng, it>>
Reply(s, v) == [s |-> s, v |-> v]
Small(x) == x[1] = 0 /\ x[2] = 0 /\ x[3] = 0 /\ x[4] <= W
RECURSIVE Walk(_, _)
Walk(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o (IF n = 1 THEN <<>> ELSE Walk(Plus(x, One), n - 1))
-----------------------------------------------------------------------------
Init == rng = [s \in 1..S |-> <<Zero, Zero>>] /\ it = [i \in 1..I |-> Zero] /\ out = Reply("init", <<>>)
Skip == UNCHANGED <<rng, it>> /\ out' = Reply("skip", <<>>)
Ask(v) == UNCHANGED <<rng, it>> /\ out' = Reply("ok", v)
Set(s, r) == rng' = [rng EXCEPT ![s] = r] /\ it' = it /\ out' = Reply("ok", <<>>)
Go(i, x, v) == it' = [it EXCEPT ![i] = x] /\ rng' = rng /\ out' = Reply("ok", v)
Size(s) == Minus(rng[s][2], rng[s][1])
Do(op) ==
  CASE op[1] \in {"new", "end"} -> rng' = [s \in 1..S |-> <<Zero, Zero>>] /\ it' = [i \in 1..I |-> Zero] /\ out' = Reply("ok", <<>>)
    [] op[1] \in {"mk", "range2"} -> IF Leq(op[3], op[4]) THEN Set(op[2], <<op[3], op[4]>>) ELSE Skip
    [] op[1] = "range1" -> Set(op[2], <<Zero, op[3]>>)
    [] op[1] = "cp" -> Set(op[2], rng[op[3]])
    \* size, start, stop, stride
    [] op[1] = "ask" -> Ask(<<Size(op[2]), rng[op[2]][1], rng[op[2]][2], One>>)
    [] op[1] = "at" -> IF Leq(op[3], Size(op[2])) THEN Ask(<<Plus(rng[op[2]][1], op[3])>>) ELSE Skip
    \* the last index, reached through the size
    [] op[1] = "last" -> IF Size(op[2]) = Zero THEN Skip ELSE Ask(<<Minus(rng[op[2]][2], One)>>)
    [] op[1] \in {"for", "iter"} -> IF Small(Size(op[2])) THEN Ask(Walk(rng[op[2]][1], Size(op[2])[4])) ELSE Skip
    [] op[1] = "begin" -> Go(op[2], rng[op[3]][1], <<>>)
    [] op[1] = "finish" -> Go(op[2], rng[op[3]][2], <<>>)
    [] op[1] = "inc" -> IF it[op[2]] = Top THEN Skip ELSE Go(op[2], Plus(it[op[2]], One), <<One>>)
    [] op[1] = "icp" -> Go(op[2], it[op[3]], <<>>)
    [] op[1] = "deref" -> Ask(<<it[op[2]]>>)
    [] op[1] = "ne" -> Ask(<<IF it[op[2]] # it[op[3]] THEN One ELSE Zero>>)
Points == IF Few THEN {Zero, One, Num(2), <<B - 1, B - 1, B - 1, B - 2>>, Top} ELSE
          {Zero, One, Num(2), Num(B - 1), Num(B), <<0, 0, B - 1, B - 1>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>>, <<B \div 2 - 1, B - 1, B - 1, B - 1>>, <<B \div 2, 0, 0, 0>>,
           <<B - 1, B - 1, B - 1, B - 3>>, <<B - 1, B - 1, B - 1, B - 2>>, Top}
\* exhaustive exploration stops the iterators two steps after a boundary
Close == \A i \in 1..I : \E x \in Points : it[i] \in {x, Plus(x, One), Plus(x, Num(2))}
Kinds == {"mk", "range2", "range1", "cp", "ask", "at", "last", "for", "iter", "begin", "finish", "inc", "icp", "deref", "ne"}
OpsOf(kk) ==
  CASE kk \in {"mk", "range2"} -> {<<kk, s, x, y>> : s \in 1..S, x \in Points, y \in Points}
    [] kk \in {"range1", "at"} -> {<<kk, s, x>> : s \in 1..S, x \in Points}
    [] kk = "cp" -> {<<kk, s, t>> : s \in 1..S, t \in 1..S}
    [] kk \in {"ask", "last", "for", "iter"} -> {<<kk, s>> : s \in 1..S}
    [] kk \in {"begin", "finish"} -> {<<kk, i, s>> : i \in 1..I, s \in 1..S}
    [] kk \in {"inc", "deref"} -> {<<kk, i>> : i \in 1..I}
    [] kk \in {"icp", "ne"} -> {<<kk, i, j>> : i \in 1..I, j \in 1..I}
\* random ranges: anywhere, and short ones anywhere
Digit(z) == RandomElement(0..(B - 1))
AnyNum(z) == IF RandomElement(1..3) = 1 THEN RandomElement(Points)
             ELSE CASE RandomElement(1..3) = 1 -> <<Digit(1), Digit(2), Digit(3), Digit(4)>> [] OTHER -> <<0, 0, 0, RandomElement(0..40)>>
Pick(kk) ==
  CASE kk \in {"mk", "range2"} ->
         {LET x == AnyNum(1) w == Num(RandomElement(Span)) y == IF RandomElement(1..4) = 1 THEN AnyNum(2) ELSE IF Fits(x, w) THEN Plus(x, w) ELSE Top
          IN IF Leq(x, y) THEN <<kk, RandomElement(1..S), x, y>> ELSE <<kk, RandomElement(1..S), y, x>>}
    [] kk = "range1" -> {<<kk, RandomElement(1..S), AnyNum(1)>>}
    [] kk = "at" -> {<<kk, RandomElement(1..S), AnyNum(1)>>}
    [] OTHER -> OpsOf(kk)
Next == \E kk \in Kinds : \E op \in OpsOf(kk) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [r |-> rng, i |-> it]
-----------------------------------------------------------------------------
Wf == \A s \in 1..S : Leq(rng[s][1], rng[s][2])
\* a walk visits as many indices as the size says, each one above the last, from start to below stop
StepOK(op) ==
  /\ op[1] \in {"for", "iter"} /\ out'.s = "ok" =>
       LET v == out'.v r == rng[op[2]] IN
       /\ Num(Len(v)) = Size(op[2])
       /\ \A i \in 1..Len(v) : Leq(r[1], v[i]) /\ Leq(v[i], r[2]) /\ v[i] # r[2] /\ v[i] = Plus(r[1], Num(i - 1))
       /\ (r[1] = r[2]) = (v = <<>>)
  /\ op[1] = "ask" => out'.v[2] = rng[op[2]][1] /\ Plus(out'.v[1], out'.v[2]) = rng[op[2]][2]
=============================================================================
