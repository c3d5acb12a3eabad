------------------------------- MODULE Randoms -------------------------------
(* Random numbers (include/randomiser.hpp). A randomiser is its type and its *)
(* interval; a draw may give any value of the interval. Numbers of every type*)
(* are mapped, keeping their order, to 64-bit unsigned numbers (Word64):     *)
(* signed integers are shifted by 2^63, reals have the bits of their         *)
(* representation turned so that they count upwards.                         *)
(* A draw is nondeterministic: Legal(op, v) says whether v is a reply; the   *)
(* behaviours generated use Candidates, the trace is judged with Legal.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word64
CONSTANTS S,        \* randomisers
          Types     \* of those below
VARIABLES r,        \* randomiser -> <<type, lowest, highest>>
          out
vars == <<r, out>>
SView == r
Reply(s, v) == [s |-> s, v |-> v]
None == <<0, Zero, Zero>>
Short == 1  UShort == 2  SInt == 3  UInt == 4  Long == 5  ULong == 6  LLong == 7  ULLong == 8  Double == 11  Float == 12
Real(t) == t \in {Double, Float}
Signed(t) == t \in {Short, SInt, Long, LLong}
Bits(t) == CASE t \in {Short, UShort} -> 16 [] t \in {SInt, UInt} -> 32 [] OTHER -> 64
H == <<B \div 2, 0, 0, 0>>
\* the number n, or -n, as the type represents it
Pos(t, x) == IF Signed(t) THEN Plus(H, x) ELSE x
Neg(x) == Minus(H, x)
Half(t) == CASE Bits(t) = 16 -> Num(32768) [] Bits(t) = 32 -> <<0, 0, B \div 2, 0>> [] OTHER -> H
Full(t) == CASE Bits(t) = 16 -> <<0, 0, 0, B - 1>> [] Bits(t) = 32 -> <<0, 0, B - 1, B - 1>> [] OTHER -> Top
Lowest(t) == IF Signed(t) THEN Neg(Half(t)) ELSE Zero
Highest(t) == IF Signed(t) THEN Plus(H, Minus(Half(t), One)) ELSE Full(t)
\* three quarters of the width of the type: where a remainder of a random number is most uneven
Most(t) == CASE Bits(t) = 16 -> Num(49151) [] Bits(t) = 32 -> <<0, 0, 49151, B - 1>> [] OTHER -> <<49151, B - 1, B - 1, B - 1>>
IntPairs(t) ==
  {<<Pos(t, Zero), Pos(t, Zero)>>, <<Highest(t), Highest(t)>>, <<Lowest(t), Lowest(t)>>, <<Pos(t, Zero), Pos(t, One)>>, <<Pos(t, Num(3)), Pos(t, Num(12))>>,
   <<Pos(t, Num(10)), Pos(t, Num(25))>>, <<Pos(t, Zero), Pos(t, Num(1000))>>, <<Pos(t, Zero), Highest(t)>>, <<Lowest(t), Highest(t)>>,
   <<Lowest(t), Plus(Lowest(t), Num(6))>>, <<Minus(Highest(t), Num(4)), Highest(t)>>, <<Lowest(t), Plus(Lowest(t), Most(t))>>}
  \* the same of a 32-bit random number
  \cup (IF Bits(t) = 16 THEN {} ELSE {<<Pos(t, Zero), Pos(t, <<0, 0, 24575, B - 1>>)>>, <<Pos(t, Num(5)), Pos(t, <<0, 0, 12288, 4>>)>>})
  \cup (IF Signed(t) THEN {<<Neg(One), Pos(t, One)>>, <<Neg(Num(5)), Neg(Num(3))>>, <<Neg(Num(7)), Pos(t, Num(8))>>, <<Neg(Num(500)), Pos(t, Num(300))>>, <<Lowest(t), Neg(One)>>} ELSE {})
\* representations of reals: sign, then exponent and mantissa
P(t, hi, a, b, c) == IF t = Double THEN <<hi + B \div 2, a, b, c>> ELSE <<0, 0, hi + B \div 2, a>>
M(t, hi, a, b, c) == IF t = Double THEN Not(<<hi + B \div 2, a, b, c>>) ELSE <<0, 0, B - 1 - (hi + B \div 2), B - 1 - a>>
O1(t) == IF t = Double THEN 16368 ELSE 16256      \* 1.0
O2(t) == IF t = Double THEN 16384 ELSE 16384      \* 2.0
O3(t) == IF t = Double THEN 16392 ELSE 16448      \* 3.0
O16(t) == IF t = Double THEN 16432 ELSE 16768     \* 16.0
O17(t) == IF t = Double THEN 16433 ELSE 16776     \* 17.0
Big(t) == IF t = Double THEN 32735 ELSE 32511     \* half of the largest
Half1(t) == IF t = Double THEN 16352 ELSE 16128   \* 0.5
Tiny(t) == IF t = Double THEN 256 ELSE 2048       \* far below one, still normal
RealWide(t) == {<<P(t, 0, 0, 0, 0), P(t, O1(t), 0, 0, 0)>>, <<M(t, O1(t), 0, 0, 0), P(t, O1(t), 0, 0, 0)>>, <<P(t, O16(t), 0, 0, 0), P(t, O17(t), 0, 0, 0)>>,
                <<M(t, O3(t), 0, 0, 0), M(t, O2(t), 0, 0, 0)>>, <<P(t, O1(t), 0, 0, 0), P(t, O2(t), 0, 0, 0)>>, <<M(t, O16(t), 0, 0, 0), P(t, Half1(t), 0, 0, 0)>>,
                <<M(t, Big(t), B - 1, B - 1, B - 1), P(t, Big(t), B - 1, B - 1, B - 1)>>, <<P(t, 0, 0, 0, 0), P(t, Tiny(t), 0, 0, 0)>>, <<P(t, O1(t), 0, 0, 0), P(t, Big(t), 0, 0, 0)>>}
RealNarrow(t) ==
  LET U(x, n) == Plus(x, Num(n)) one == P(t, O1(t), 0, 0, 0) z == P(t, 0, 0, 0, 0) m == M(t, O1(t), 0, 0, 0)
  IN {<<one, U(one, 1)>>, <<one, U(one, 2)>>, <<one, U(one, 3)>>, <<one, U(one, 1000)>>, <<z, U(z, 1)>>, <<z, U(z, 3)>>, <<m, U(m, 1)>>, <<m, U(m, 5)>>, <<one, one>>, <<z, z>>,
      <<P(t, Big(t), 0, 0, 0), U(P(t, Big(t), 0, 0, 0), 1)>>, <<Minus(P(t, O2(t), 0, 0, 0), One), P(t, O2(t), 0, 0, 0)>>}
Pairs(t) == IF Real(t) THEN RealWide(t) \cup RealNarrow(t) ELSE IntPairs(t)
-----------------------------------------------------------------------------
\* is x in the interval of q: closed for integers, open above for reals (a single point draws itself)
In(q, x) == Leq(q[2], x) /\ IF Real(q[1]) /\ q[2] # q[3] THEN Less(x, q[3]) ELSE Leq(x, q[3])
Span(q) == Minus(q[3], q[2])
\* number of values, where it is small enough to count each of them
Few(q) == ~Real(q[1]) /\ Leq(Span(q), Num(15))
Wide(q) == IF Real(q[1]) THEN <<q[2], q[3]>> \in RealWide(q[1]) ELSE Leq(<<0, 0, 16, 0>>, Span(q))
\* parts whose frequency is counted: each value, or eighths of the interval (coarse), or interleaved eighths of it (fine)
Cells(q) == IF Few(q) THEN Span(q)[4] + 1 ELSE 8
N == 100000                     \* draws counted
Root(x) == CHOOSE y \in 0..1300 : y * y <= x /\ (y + 1) * (y + 1) > x
\* within seven standard deviations: |c*k - N| <= 7 sqrt(N (k-1))
Even(c, kk) == LET d == c * kk - N b == 7 * (Root(N * (kk - 1)) + 1) IN d <= b /\ -d <= b
Counts(v, kk) == /\ Len(v) = kk
                 /\ \A i \in 1..kk : Len(v[i]) = 1 /\ Even(v[i][1], kk)
\* is v a reply to op?
Legal(op, v) ==
  CASE op[1] \in {"draw", "force"} -> Len(v) = 1 /\ In(r[op[2]], v[1])
    \* the least and greatest of N draws; with few values in the interval both ends are drawn
    [] op[1] = "many" -> LET q == r[op[2]] IN
         /\ Len(v) = 2 /\ In(q, v[1]) /\ In(q, v[2]) /\ Leq(v[1], v[2])
         /\ ~Real(q[1]) /\ Leq(Span(q), Num(1200)) => v[1] = q[2] /\ v[2] = q[3]
    [] op[1] = "hist" -> Counts(v, Cells(r[op[2]]))
    \* quarters of the interval in which two successive draws fall, the second from another randomiser or the same
    [] op[1] = "pair" -> Counts(v, 16)
    \* values all different: draws from so wide an interval, generators, processes
    [] op[1] \in {"fresh", "gens", "procs"} -> v = <<<<op[3]>>>>
    [] OTHER -> v = <<>>
Possible(op) ==
  CASE op[1] \in {"draw", "force", "many"} -> r[op[2]] # None
    [] op[1] = "hist" -> r[op[2]] # None /\ (Few(r[op[2]]) \/ Wide(r[op[2]]))
    [] op[1] = "pair" -> r[op[2]] # None /\ r[op[3]] # None /\ Wide(r[op[2]]) /\ Wide(r[op[3]])
    [] op[1] = "fresh" -> r[op[2]] # None /\ ~Real(r[op[2]][1]) /\ Leq(<<B \div 4, 0, 0, 0>>, Span(r[op[2]]))
    [] OTHER -> TRUE
Init == r = [s \in 1..S |-> None] /\ out = Reply("init", <<>>)
Skip == UNCHANGED r /\ out' = Reply("skip", <<>>)
Result(op, v) ==
  IF ~Possible(op) THEN Skip
  ELSE /\ out' = Reply("ok", v)
       /\ r' = CASE op[1] \in {"new", "end"} -> [s \in 1..S |-> None]
                 [] op[1] = "mk" -> [r EXCEPT ![op[2]] = <<op[3], op[4], op[5]>>]
                 [] op[1] = "cp" -> [r EXCEPT ![op[2]] = r[op[3]]]
                 [] OTHER -> r
AnEven(kk) == LET q == N \div kk IN [i \in 1..kk |-> IF i <= N - q * kk THEN <<q + 1>> ELSE <<q>>]
\* some replies
Candidates(op) ==
  IF ~Possible(op) THEN {<<>>}
  ELSE CASE op[1] \in {"draw", "force"} -> {<<r[op[2]][2]>>, <<IF Real(r[op[2]][1]) /\ r[op[2]][2] # r[op[2]][3] THEN Minus(r[op[2]][3], One) ELSE r[op[2]][3]>>}
         [] op[1] = "many" -> {<<r[op[2]][2], IF Real(r[op[2]][1]) /\ r[op[2]][2] # r[op[2]][3] THEN Minus(r[op[2]][3], One) ELSE r[op[2]][3]>>}
         [] op[1] = "hist" -> {AnEven(Cells(r[op[2]]))}
         [] op[1] = "pair" -> {AnEven(16)}
         [] op[1] \in {"fresh", "gens", "procs"} -> {<<<<op[3]>>>>}
         [] OTHER -> {<<>>}
Do(op) == \E v \in Candidates(op) : Result(op, v)
\* outputs of the underlying generator that the next draws use up, as two 32-bit words (each two digits)
Words == {<<0, 0>>, <<B - 1, B - 1>>, <<B \div 2, 0>>, <<B \div 2 - 1, B - 1>>, <<B - 1, B - 512>>, <<0, 1>>, <<B - 1, B - 2>>}
Kinds == {"mk", "cp", "draw", "force", "many", "hist", "pair", "fresh", "gens", "procs"}
OpsOf(kk) ==
  CASE kk = "mk" -> UNION {{<<kk, s, t, q[1], q[2]>> : s \in 1..S, q \in Pairs(t)} : t \in Types}
    [] kk = "cp" -> IF S = 1 THEN {} ELSE {<<kk, s, t>> : s \in 1..S, t \in 1..S}
    [] kk = "draw" -> {<<kk, s, w>> : s \in 1..S, w \in {1, 2}}                \* directly, through the interface
    [] kk = "force" -> {<<kk, s, w[1] \o w[2]>> : s \in 1..S, w \in Words \X Words}
    [] kk = "many" -> {<<kk, s>> : s \in 1..S}
    [] kk = "hist" -> {<<kk, s, w>> : s \in 1..S, w \in {1, 2}}
    [] kk = "pair" -> {<<kk, s, t>> : s \in 1..S, t \in 1..S}
    [] kk = "fresh" -> {<<kk, s, 32>> : s \in 1..S}
    [] kk = "gens" -> IF S = 1 THEN {} ELSE {<<kk, 0, 5>>}
    [] kk = "procs" -> IF S = 1 THEN {} ELSE {<<kk, 0, 3>>}
Next == \E kk \in Kinds : \E op \in OpsOf(kk) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [r |-> r]
-----------------------------------------------------------------------------
Wf == \A s \in 1..S : r[s] # None => Leq(r[s][2], r[s][3])
StepOK(op) == out'.s = "ok" => Legal(op, out'.v)
=============================================================================
