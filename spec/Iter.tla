-------------------------------- MODULE Iter --------------------------------
(* Iterators built from basic operations (include/iterator.hpp) as positions *)
(* in a sequence: random access ("ra"), forward ("fwd"), and paired ("pair"),*)
(* whose position is a pair. "far" is a random access iterator over the      *)
(* integers below 2^62 themselves: positions and distances are 64-bit words  *)
(* (distances in two's complement), and the element at a position is it.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Word64
CONSTANTS Fam,      \* which kind of iterator
          S,        \* iterators
          N,        \* length of the sequence: positions 0..N
          Vals      \* values of its elements
VARIABLES p,        \* iterator -> position (pairs: <<position in a, position in b>>)
          a, b,     \* the sequences (b used by pairs only)
          out
vars == <<p, a, b, out>>
SView == <<p, a, b>>
Slots == 1..S
Reply(s, v) == [s |-> s, v |-> v]
Start == CASE Fam = "pair" -> <<0, 0>> [] Fam = "far" -> Zero [] OTHER -> 0
Seq0(k) == [i \in 1..N |-> ((i + k) % 2) + 1]
In(n) == n >= 0 /\ n <= N
Bool(c) == IF c THEN 1 ELSE 0
Min(x, y) == IF x < y THEN x ELSE y
Fresh == p = [s \in Slots |-> Start] /\ a = Seq0(0) /\ b = Seq0(1)
Init == Fresh /\ out = Reply("init", <<>>)
Skip == UNCHANGED <<p, a, b>> /\ out' = Reply("skip", <<>>)
Move(s, n, v) == IF In(n) THEN p' = [p EXCEPT ![s] = n] /\ UNCHANGED <<a, b>> /\ out' = Reply("ok", v) ELSE Skip
Ask(v) == UNCHANGED <<p, a, b>> /\ out' = Reply("ok", v)
DoOne(op) ==
  LET s == op[2] t == op[3] n == op[4] IN     \* all operations carry iterator, other iterator, number
  CASE op[1] = "set" -> Move(s, n, <<>>)                                  \* construct at a position
    [] op[1] = "cp" -> Move(s, p[t], <<>>)
    \* s = t + n, s = t - n: t stays (unless it is s)
    [] op[1] = "plus" -> Move(s, p[t] + n, <<>>)
    [] op[1] = "minus" -> Move(s, p[t] - n, <<>>)
    [] op[1] \in {"pluseq", "next"} -> Move(s, p[s] + n, <<1>>)           \* the iterator itself is returned
    [] op[1] = "minuseq" -> Move(s, p[s] - n, <<1>>)
    [] op[1] = "inc" -> Move(s, p[s] + 1, <<1>>)
    [] op[1] = "dec" -> Move(s, p[s] - 1, <<1>>)
    [] op[1] = "postinc" -> \* t = s++
         IF ~In(p[s] + 1) THEN Skip
         ELSE p' = [[p EXCEPT ![s] = p[s] + 1] EXCEPT ![t] = p[s]] /\ UNCHANGED <<a, b>> /\ out' = Reply("ok", <<>>)
    [] op[1] = "readinc" -> \* *s++
         IF p[s] >= N THEN Skip ELSE p' = [p EXCEPT ![s] = @ + 1] /\ UNCHANGED <<a, b>> /\ out' = Reply("ok", <<a[p[s] + 1]>>)
    [] op[1] \in {"deref", "arrow"} -> IF p[s] >= N THEN Skip ELSE Ask(<<a[p[s] + 1]>>)
    [] op[1] = "write" -> IF p[s] >= N THEN Skip ELSE a' = [a EXCEPT ![p[s] + 1] = n] /\ UNCHANGED <<p, b>> /\ out' = Reply("ok", <<>>)
    \* all comparisons: == != < <= > >=, and the difference s - t
    [] op[1] = "cmp" -> LET x == p[s] y == p[t] IN
         Ask(IF Fam = "ra" THEN <<Bool(x = y), Bool(x # y), Bool(x < y), Bool(x <= y), Bool(x > y), Bool(x >= y), x - y, y - x>>
             ELSE <<Bool(x = y), Bool(x # y)>>)
    \* the elements from s up to t
    [] op[1] = "walk" -> IF p[s] > p[t] THEN Skip ELSE Ask(SubSeq(a, p[s] + 1, p[t]))
DoPair(op) ==
  LET s == op[2] t == op[3] n == op[4] m == op[5]
      P(q, v) == IF In(q[1]) /\ In(q[2]) THEN p' = [p EXCEPT ![s] = q] /\ UNCHANGED <<a, b>> /\ out' = Reply("ok", v) ELSE Skip
      x == p[s] y == p[t]
  IN CASE op[1] = "set" -> P(<<n, m>>, <<>>)
       [] op[1] = "cp" -> P(y, <<>>)
       [] op[1] = "advance" -> P(<<x[1] + n, x[2] + n>>, <<>>)
       [] op[1] \in {"equal", "equalconst"} -> Ask(<<Bool(x = y)>>)         \* also with iterators of constant elements
       [] op[1] = "conv" -> Ask(x)                                          \* converting keeps both positions
       [] op[1] = "print" -> Ask(x)
       [] op[1] = "deref" -> IF x[1] >= N \/ x[2] >= N THEN Skip ELSE Ask(<<a[x[1] + 1], b[x[2] + 1]>>)
       [] op[1] = "write" -> IF x[1] >= N \/ x[2] >= N THEN Skip
                             ELSE a' = [a EXCEPT ![x[1] + 1] = n] /\ b' = [b EXCEPT ![x[2] + 1] = m] /\ p' = p /\ out' = Reply("ok", <<>>)
Below(x) == x[1] < 16384                                                       \* x < 2^62
Neg(x) == Minus(Zero, x)
Bit(c) == IF c THEN One ELSE Zero
DoFar(op) ==
  LET s == op[2] t == op[3] n == op[4]
      P(x, v) == IF Below(x) THEN p' = [p EXCEPT ![s] = x] /\ UNCHANGED <<a, b>> /\ out' = Reply("ok", v) ELSE Skip
  IN CASE op[1] = "set" -> P(n, <<>>)
       [] op[1] = "cp" -> P(p[t], <<>>)
       [] op[1] = "plus" -> P(Plus(p[t], n), <<>>)
       [] op[1] = "minus" -> P(Minus(p[t], n), <<>>)
       [] op[1] \in {"pluseq", "next"} -> P(Plus(p[s], n), <<One>>)
       [] op[1] = "minuseq" -> P(Minus(p[s], n), <<One>>)
       [] op[1] = "inc" -> P(Plus(p[s], One), <<One>>)
       [] op[1] = "dec" -> P(Minus(p[s], One), <<One>>)
       [] op[1] = "deref" -> Ask(<<p[s]>>)
       [] op[1] = "cmp" -> LET x == p[s] y == p[t] IN
            Ask(<<Bit(x = y), Bit(x # y), Bit(Less(x, y)), Bit(Leq(x, y)), Bit(Less(y, x)), Bit(Leq(y, x)), Minus(x, y), Minus(y, x)>>)
       [] op[1] = "walk" -> LET d == Minus(p[t], p[s]) IN
            IF Leq(d, Num(N)) THEN Ask([i \in 1..d[4] |-> Plus(p[s], Num(i - 1))]) ELSE Skip
\* powers of two, and their neighbours: bounds of narrower types
Marks == {Zero, One, Num(2147483647), <<0, 0, 32768, 0>>, <<0, 0, B - 1, B - 1>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>>, <<1, 0, 0, 0>>, <<8192, 0, 0, 0>>, <<16383, B - 1, B - 1, B - 1>>}
Dists == Marks \cup {Neg(x) : x \in Marks}
OnMarks == Fam = "far" => \A s \in Slots : p[s] \in Marks
RandomWord(z) == CASE RandomElement(1..4) = 1 -> RandomElement(Marks)
                   [] OTHER -> LET q == RandomElement(1..4) IN [j \in 1..4 |-> IF j < q THEN 0 ELSE RandomElement(0..(IF j = 1 THEN 16383 ELSE B - 1))]
RandomDist(z) == CASE RandomElement(1..2) = 1 -> RandomWord(z) [] OTHER -> Neg(RandomWord(z))
Do(op) ==
  IF op[1] \in {"new", "end"} THEN p' = [s \in Slots |-> Start] /\ a' = Seq0(0) /\ b' = Seq0(1) /\ out' = Reply("ok", <<>>)
  ELSE IF Fam = "pair" THEN DoPair(op) ELSE IF Fam = "far" THEN DoFar(op) ELSE DoOne(op)
Kinds == CASE Fam = "ra" -> {"set", "cp", "plus", "minus", "pluseq", "minuseq", "next", "inc", "dec", "deref", "arrow", "write", "cmp", "walk"}
           [] Fam = "fwd" -> {"set", "cp", "inc", "postinc", "readinc", "deref", "arrow", "write", "cmp", "walk"}
           [] Fam = "far" -> {"set", "cp", "plus", "minus", "pluseq", "minuseq", "next", "inc", "dec", "deref", "cmp", "walk"}
           [] Fam = "pair" -> {"set", "cp", "advance", "equal", "equalconst", "conv", "print", "deref", "write"}
Nums(k) == CASE k = "set" -> 0..N [] k \in {"plus", "minus", "pluseq", "minuseq", "next", "advance"} -> -N..N [] k = "write" -> Vals [] OTHER -> {0}
Other(k) == k \in {"cp", "plus", "minus", "postinc", "cmp", "walk", "equal", "equalconst"}
Next1(k) == {<<k, s, t, n>> : s \in Slots, t \in (IF Other(k) THEN Slots ELSE {1}), n \in Nums(k)}
Next2(k) == {<<k, s, t, n, m>> : s \in Slots, t \in (IF Other(k) THEN Slots ELSE {1}), n \in Nums(k), m \in (IF k \in {"set", "write"} THEN Nums(k) ELSE {0})}
Next3(k) == {<<k, s, t, n>> : s \in Slots, t \in (IF Other(k) THEN Slots ELSE {1}),
                              n \in (CASE k = "set" -> Marks [] k \in {"plus", "minus", "pluseq", "minuseq", "next"} -> Dists [] OTHER -> {Zero})}
OpsOf(k) == CASE Fam = "pair" -> Next2(k) [] Fam = "far" -> Next3(k) [] OTHER -> Next1(k)
Pick(k) == IF Fam # "far" THEN OpsOf(k)
           ELSE {<<k, RandomElement(Slots), IF Other(k) THEN RandomElement(Slots) ELSE 1,
                   CASE k = "set" -> RandomWord(1) [] k \in {"plus", "minus", "pluseq", "minuseq", "next"} -> RandomDist(1) [] OTHER -> Zero>>}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [p |-> p, a |-> a, b |-> b]
-----------------------------------------------------------------------------
StepOK(op) ==
  /\ op[1] \in {"deref", "arrow", "cmp", "walk", "equal", "equalconst", "conv", "print"} => p' = p /\ a' = a /\ b' = b
  /\ op[1] \in {"plus", "minus"} /\ op[2] # op[3] => p'[op[3]] = p[op[3]]
  /\ op[1] \notin {"new", "end"} => \A s \in Slots : s # op[2] /\ (op[1] # "postinc" \/ s # op[3]) => p'[s] = p[s]
  /\ op[1] = "cmp" /\ Fam = "ra" => out'.v[3] + out'.v[1] + out'.v[5] = 1 /\ out'.v[4] = 1 - out'.v[5] /\ out'.v[7] = 0 - out'.v[8]
  /\ op[1] = "cmp" /\ Fam = "far" =>                         \* exactly one of < = > holds; the difference leads from one to the other
       Plus(Plus(out'.v[1], out'.v[3]), out'.v[5]) = One /\ Plus(p[op[3]], out'.v[7]) = p[op[2]] /\ out'.v[8] = Neg(out'.v[7])
=============================================================================
