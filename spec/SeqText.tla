------------------------------ MODULE SeqText ------------------------------
(* The text form of sequences: what is accepted when reading, and that what  *)
(* is written reads back. Text is a sequence of character codes.             *)
(* (include/stlio.hpp: read_sequence, operator>>; container.hpp: operator<<) *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS L,       \* every text up to this length over the alphabet
          Alpha,   \* alphabet: character codes
          R        \* longest sequence in random behaviours
VARIABLES a,       \* contents of the container read into
          out
vars == <<a, out>>
SView == Len(a) * 0   \* the contents do not influence what is read
Reply(s, v) == [s |-> s, v |-> v]
\* delimiters by style: opening, closing, separator
Delims == << <<91, 93, 44>>, <<40, 41, 59>>, <<123, 125, 124>> >>
Ws == {32, 10, 9}
Digit(c) == c >= 48 /\ c <= 57
RECURSIVE Skip(_, _)
Skip(t, p) == IF p <= Len(t) /\ t[p] \in Ws THEN Skip(t, p + 1) ELSE p
RECURSIVE Digits(_, _, _)
Over == -1          \* too large a number
Edge == -2          \* the one number that is only representable when negated
Digits(t, p, n) == IF p <= Len(t) /\ Digit(t[p])
                   THEN Digits(t, p + 1, IF n = 214748364 /\ t[p] = 56 THEN Edge
                                         ELSE IF n < 0 \/ n > 214748364 \/ (n = 214748364 /\ t[p] > 55) THEN Over ELSE 10 * n + (t[p] - 48)) ELSE <<n, p>>
Fail == [ok |-> FALSE, v |-> <<>>, p |-> 0]
\* a whole number, after white space
Num(t, p0) ==
  LET p == Skip(t, p0)
      signed == p <= Len(t) /\ t[p] \in {43, 45}
      q == IF signed THEN p + 1 ELSE p
      d == Digits(t, q, 0)
      minus == signed /\ t[p] = 45
  IN IF q > Len(t) \/ ~Digit(t[q]) \/ d[1] = Over \/ (d[1] = Edge /\ ~minus) THEN Fail
     ELSE [ok |-> TRUE, v |-> IF d[1] = Edge THEN -2147483647 - 1 ELSE IF minus THEN -d[1] ELSE d[1], p |-> d[2]]
\* a truth value, as a number
Truth(t, p) == LET n == Num(t, p) IN IF n.ok /\ n.v \in {0, 1} THEN n ELSE Fail
\* a character
Char(t, p0) == LET p == Skip(t, p0) IN IF p > Len(t) THEN Fail ELSE [ok |-> TRUE, v |-> t[p], p |-> p + 1]
\* a decimal number: <<mantissa, number of decimals>>, without needless decimals
RECURSIVE Least(_, _)
Least(m, d) == IF d > 0 /\ m % 10 = 0 THEN Least(m \div 10, d - 1) ELSE <<m, d>>
Real(t, p0) ==
  LET p == Skip(t, p0)
      signed == p <= Len(t) /\ t[p] \in {43, 45}
      q == IF signed THEN p + 1 ELSE p
      whole == Digits(t, q, 0)
      point == whole[2] <= Len(t) /\ t[whole[2]] = 46
      all == IF point THEN Digits(t, whole[2] + 1, whole[1]) ELSE whole
      digits == (all[2] - q) - (IF point THEN 1 ELSE 0)
      x == Least(all[1], IF point THEN all[2] - whole[2] - 1 ELSE 0)
  IN IF digits = 0 THEN Fail
     ELSE [ok |-> TRUE, v |-> <<IF signed /\ t[p] = 45 THEN -x[1] ELSE x[1], x[2]>>, p |-> all[2]]
\* depth 1: a sequence of numbers; depth 2: a sequence of sequences (which use the standard delimiters);
\* 3: of characters; 4: of truth values; 5: of decimal numbers
RECURSIVE Sequence(_, _, _, _)
Item(t, p, d) == CASE d = 1 -> Num(t, p) [] d = 2 -> Sequence(t, p, 1, Delims[1]) [] d = 3 -> Char(t, p) [] d = 4 -> Truth(t, p) [] d = 5 -> Real(t, p)
\* items and separators from p on, up to the closing delimiter
Items(t, p, d, D) ==
  LET Step(s, n) ==      \* one item and what follows it
        IF s.end # "no" THEN s
        ELSE LET i == Item(t, s.p, d)
                 q == Skip(t, i.p)
             IN IF ~i.ok \/ q > Len(t) THEN [s EXCEPT !.end = "fail"]
                ELSE IF t[q] = D[2] THEN [end |-> "yes", v |-> Append(s.v, i.v), p |-> q + 1]
                ELSE IF t[q] = D[3] THEN [end |-> "no", v |-> Append(s.v, i.v), p |-> q + 1]
                ELSE [s EXCEPT !.end = "fail"]
      r == FoldLeft(Step, [end |-> "no", v |-> <<>>, p |-> p], [n \in 1..(Len(t) + 1) |-> n])
  IN IF r.end = "yes" THEN [ok |-> TRUE, v |-> r.v, p |-> r.p] ELSE Fail
Sequence(t, p0, d, D) ==
  LET p == Skip(t, p0)
      q == Skip(t, p + 1)
  IN IF p > Len(t) \/ t[p] # D[1] \/ q > Len(t) THEN Fail
     ELSE IF t[q] = D[2] THEN [ok |-> TRUE, v |-> <<>>, p |-> q + 1]
     ELSE Items(t, q, d, D)

\* written form
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Join2(_, _, _, _)   \* of q[i..j], cut in half to keep long ones cheap
Join2(q, i, j, sep) == IF i = j THEN q[i] ELSE LET h == (i + j) \div 2 IN Join2(q, i, h, sep) \o <<sep>> \o Join2(q, h + 1, j, sep)
Join(q, sep) == IF q = <<>> THEN <<>> ELSE Join2(q, 1, Len(q), sep)
RECURSIVE Pad(_, _)      \* n in at least k digits
Pad(n, k) == IF k = 1 THEN Dec(n) ELSE Pad(n \div 10, k - 1) \o <<48 + (n % 10)>>
RECURSIVE Ten(_)
Ten(k) == IF k = 0 THEN 1 ELSE 10 * Ten(k - 1)
RealText(x) == IF x[1] < 0 THEN <<45>> \o Dec((-x[1]) \div Ten(x[2])) \o (IF x[2] = 0 THEN <<>> ELSE <<46>> \o Pad((-x[1]) % Ten(x[2]), x[2]))
               ELSE Dec(x[1] \div Ten(x[2])) \o (IF x[2] = 0 THEN <<>> ELSE <<46>> \o Pad(x[1] % Ten(x[2]), x[2]))
Text(v, d, D) == <<D[1]>> \o Join([k \in 1..Len(v) |-> IF d \in {1, 4} THEN Dec(v[k]) ELSE IF d = 3 THEN <<v[k]>> ELSE IF d = 5 THEN RealText(v[k]) ELSE <<91>> \o Join([m \in 1..Len(v[k]) |-> Dec(v[k][m])], 44) \o <<93>>], D[3]) \o <<D[2]>>

Init == a = <<9>> /\ out = Reply("init", <<>>)
ItemKind(c) == CASE c = "nested" -> 2 [] c = "chars" -> 3 [] c = "bools" -> 4 [] c = "reals" -> 5 [] OTHER -> 1
Do(op) ==
  CASE op[1] \in {"new", "end"} -> a' = <<9>> /\ out' = Reply("ok", <<>>)
    \* read, container, style, text
    [] op[1] = "read" ->
         LET d == ItemKind(op[2])
             r == Sequence(op[4], 1, d, Delims[op[3]])
         IN IF r.ok
            THEN a' = r.v /\ out' = Reply("ok", SubSeq(op[4], r.p, Len(op[4])))    \* and what is left unread
            ELSE a' = <<9>> /\ out' = Reply("fail", <<>>)                           \* the driver then resets the container
    \* write and read back, container, value
    [] op[1] = "round" -> a' = op[3] /\ out' = Reply("ok", Text(op[3], ItemKind(op[2]), Delims[1]))
Containers == {"vector", "list", "linked"}
Texts == UNION {[1..n -> Alpha] : n \in 0..L}
Nums == {<<>>, <<1>>, <<-2>>, <<10, 0>>, <<7, -12, 345>>}
\* a character that is a delimiter in the place of an item: left open
RECURSIVE OpenItems(_, _, _)
OpenItems(t, p0, D) == LET p == Skip(t, p0)  q == Skip(t, p + 1)
                       IN p <= Len(t) /\ (t[p] \in {D[1], D[2], D[3]} \/ (q <= Len(t) /\ t[q] = D[3] /\ OpenItems(t, q + 1, D)))
Open(t, D) == LET p == Skip(t, 1)  q == Skip(t, p + 1) IN p <= Len(t) /\ t[p] = D[1] /\ q <= Len(t) /\ t[q] # D[2] /\ OpenItems(t, q, D)
Chars == {<<>>, <<97>>, <<49, 45>>}
Bools == {<<>>, <<1>>, <<0, 1>>}
Reals == {<<>>, << <<-25, 2>> >>, << <<5, 1>>, <<10, 0>> >>}
Kinds == {"read", "round"}
OpsOf(k) ==
  CASE k = "read" -> {<<k, "vector", 1, t>> : t \in Texts} \cup {<<k, "nested", 1, t>> : t \in {x \in Texts : Len(x) <= L}}
                     \cup {<<k, c, 1, t>> : c \in {"list", "linked"}, t \in {x \in Texts : Len(x) <= L - 2}}
                     \cup {<<k, c, 1, t>> : c \in {"bools", "reals"}, t \in {x \in Texts : Len(x) <= L - 1}}
                     \cup {<<k, "chars", 1, t>> : t \in {x \in Texts : Len(x) <= L - 1 /\ ~Open(x, Delims[1])}}
    [] k = "round" -> {<<k, c, v>> : c \in Containers, v \in Nums} \cup {<<k, "chars", v>> : v \in Chars} \cup {<<k, "bools", v>> : v \in Bools} \cup {<<k, "reals", v>> : v \in Reals}

\* random behaviours: well-formed texts with random white space, some of them then damaged in one place
RandNum(zz) == LET n == RandomElement({0, 1, 2, 5, 10, 77, 1234, 99999}) IN IF RandomElement({1, 2, 3}) = 1 THEN -n ELSE n
\* lengths: any, and where R is large, often one next to a power of two
RandLen(zz) == IF R < 100 \/ RandomElement(1..3) = 1 THEN RandomElement(0..R)
           ELSE RandomElement({n \in {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4096, 4097} : n <= R /\ (R < 1000 \/ n > 500)})
RandSp(zz) == RandomElement({<<>>, <<>>, <<>>, <<32>>, <<10>>, <<9, 32>>})
RandSign(t) == IF t[1] # 45 /\ RandomElement(1..6) = 1 THEN <<43>> \o t ELSE t
RECURSIVE RandItems(_, _, _)
RandSeq(n, d, D) == RandSp(0) \o <<D[1]>> \o (IF n = 0 THEN RandSp(0) ELSE RandItems(n, d, D)) \o <<D[2]>>
RandReal(zz) == Least(RandomElement({-2500, -75, -1, 0, 5, 100, 125, 1000, 9999}), RandomElement(0..3))
RandChar(zz) == RandomElement({33, 43, 45, 46, 48, 49, 65, 97, 101, 122, 126})
RandItem(d) == CASE d = 1 -> RandSign(LET n == RandNum(0) IN IF RandomElement(1..40) = 1 THEN RandomElement({Dec(99999) \o Dec(99999), Dec(214748364) \o <<56>>, <<45>> \o Dec(214748364) \o <<56>>, <<45>> \o Dec(214748364) \o <<57>>}) ELSE Dec(n))
                 [] d = 2 -> RandSeq(RandomElement(0..3), 1, Delims[1])
                 [] d = 3 -> <<RandChar(0)>>
                 [] d = 4 -> RandSign(Dec(IF RandomElement(1..30) = 1 THEN 2 ELSE RandomElement({0, 1})))
                 [] d = 5 -> RandSign(RealText(RandReal(0)) \o RandomElement({<<>>, <<>>, <<48>>}))
RandItems(n, d, D) == IF n > 1 THEN RandItems(n \div 2, d, D) \o <<D[3]>> \o RandItems(n - (n \div 2), d, D)
                      ELSE RandSp(0) \o RandItem(d) \o RandSp(0)
Damage(t) == LET p == RandomElement(1..Len(t))
             IN CASE RandomElement(1..8) = 1 -> SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t))          \* lose a character
                  [] RandomElement(1..7) = 1 -> SubSeq(t, 1, p) \o <<RandomElement({44, 91, 93, 45, 46, 32, 120, 49})>> \o SubSeq(t, p + 1, Len(t))
                  [] RandomElement(1..6) = 1 -> SubSeq(t, 1, p)                                             \* end early
                  [] OTHER -> t
RandTail(zz) == RandomElement({<<>>, <<>>, <<93>>, <<32, 91>>, <<44, 49>>, <<120>>})
Pick(k) ==
  CASE k = "read" -> \* chosen once: a set of one operation
         {o \in {LET c == RandomElement({"vector", "list", "linked", "nested", "chars", "bools", "reals"})  s == RandomElement(1..3)
              n == IF c = "nested" THEN RandomElement({RandLen(0) % 66, RandomElement(0..9)}) ELSE RandLen(0)
          IN <<"read", c, s, Damage(RandSeq(n, ItemKind(c), Delims[s]) \o RandTail(0))>>} : o[2] # "chars" \/ ~Open(o[4], Delims[o[3]])}
    [] k = "round" -> {LET n == RandLen(0) IN <<k, RandomElement(Containers), [i \in 1..n |-> IF RandomElement(1..9) = 1 THEN RandomElement({2147483647, -2147483647, 65536, 1000000000}) ELSE RandNum(0)]>>}
                      \cup {LET n == RandLen(0) IN <<k, "chars", [i \in 1..n |-> RandChar(0)]>>} \cup {LET n == RandLen(0) IN <<k, "bools", [i \in 1..n |-> RandomElement({0, 1})]>>}
                      \cup {LET n == RandLen(0) IN <<k, "reals", [i \in 1..n |-> RandReal(0)]>>}
                      \cup {LET n == RandLen(0) % 66 IN <<k, "nested", [i \in 1..n |-> LET m == RandomElement(0..3) IN [j \in 1..m |-> RandNum(0)]]>>}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [a |-> a]
-----------------------------------------------------------------------------
\* What is written reads back as the same value, with nothing left; what is accepted is one bracketed group.
Balanced(t) == Cardinality({k \in 1..Len(t) : t[k] = 91}) = Cardinality({k \in 1..Len(t) : t[k] = 93})
StepOK(op) ==
  /\ op[1] = "round" => LET r == Sequence(out'.v, 1, ItemKind(op[2]), Delims[1])
                        IN r.ok /\ r.v = op[3] /\ r.p = Len(out'.v) + 1
  /\ op[1] = "read" /\ op[3] = 1 /\ out'.s = "ok" =>
       LET used == SubSeq(op[4], 1, Len(op[4]) - Len(out'.v))
       IN /\ op[2] = "chars" \/ Balanced(used)
          /\ used[Len(used)] = 93 /\ used[Skip(used, 1)] = 91
          /\ op[2] \notin {"nested", "chars"} => /\ Cardinality({k \in 1..Len(used) : used[k] = 91}) = 1
                                 /\ Len(a') = (IF a' = <<>> THEN 0 ELSE 1 + Cardinality({k \in 1..Len(used) : used[k] = 44}))
=============================================================================
