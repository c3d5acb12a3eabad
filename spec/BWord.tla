------------------------------- MODULE BWord -------------------------------
(* Binary words as sequences of bits (include/binary_word.hpp).              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS S,        \* words
          M,        \* longest word in enumerated behaviours
          R         \* longest word made in random behaviours
VARIABLES w,        \* word -> its bits
          out
vars == <<w, out>>
SView == w
Slots == 1..S
Bits == {0, 1}
Reply(s, v) == [s |-> s, v |-> v]
Tf(b) == IF b THEN <<1>> ELSE <<0>>
Init == w = [s \in Slots |-> <<>>] /\ out = Reply("init", <<>>)
Min(a, b) == IF a < b THEN a ELSE b
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Subword(a, b) == \E i \in 0..(Len(b) - Len(a)) : \A j \in 1..Len(a) : b[i + j] = a[j]
\* lexicographic: at the first difference, else the shorter first
Less(a, b) == \/ \E i \in 1..Min(Len(a), Len(b)) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
              \/ Len(a) < Len(b) /\ Prefix(a, b)
Drop(a, n) == IF n <= 0 THEN a ELSE SubSeq(a, n + 1, Len(a))
Set(s, a) == w' = [w EXCEPT ![s] = a] /\ out' = Reply("ok", <<>>)
Ask(v) == w' = w /\ out' = Reply("ok", v)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> w' = [s \in Slots |-> <<>>] /\ out' = Reply("ok", <<>>)
    [] op[1] = "mk" -> Set(op[2], op[3])               \* from digit text
    [] op[1] = "def" -> Set(op[2], <<>>)
    [] op[1] \in {"cp", "asg"} -> Set(op[2], w[op[3]])
    [] op[1] = "bit" -> Set(op[2], Append(w[op[2]], op[3]))
    [] op[1] = "word" -> Set(op[2], w[op[2]] \o w[op[3]])     \* possibly the word itself
    [] op[1] = "erase" -> Set(op[2], Drop(w[op[2]], op[3]))
    [] op[1] = "back" -> IF w[op[2]] = <<>> THEN w' = w /\ out' = Reply("skip", <<>>)
                         ELSE Set(op[2], [w[op[2]] EXCEPT ![Len(w[op[2]])] = op[3]])
    [] op[1] = "prefix" -> Ask(Tf(Prefix(w[op[2]], w[op[3]])))
    [] op[1] = "sub" -> Ask(Tf(Subword(w[op[2]], w[op[3]])))
    [] op[1] = "less" -> Ask(Tf(Less(w[op[2]], w[op[3]])))
    [] op[1] = "eq" -> Ask(Tf(w[op[2]] = w[op[3]]))
    \* all words with all words
    [] op[1] = "rel" -> Ask([n \in 1..(S * S) |-> LET a == w[((n - 1) \div S) + 1] b == w[((n - 1) % S) + 1] IN Tf(Prefix(a, b)) \o Tf(Subword(a, b)) \o Tf(Less(a, b)) \o Tf(a = b)])
    [] op[1] = "bytes" -> Ask(<<(Len(w[op[2]]) + 7) \div 8, Len(w[op[2]])>>)
Words(n) == UNION {[1..m -> Bits] : m \in 0..n}
Kinds == {"mk", "def", "cp", "asg", "bit", "word", "erase", "back", "prefix", "sub", "less", "eq", "bytes", "rel"}
Two(k) == {<<k, s, t>> : s \in Slots, t \in Slots}
OpsOf(k) ==
  CASE k = "mk" -> {<<k, s, a>> : s \in Slots, a \in Words(M)}
    [] k \in {"def", "bytes"} -> {<<k, s>> : s \in Slots}
    [] k \in {"cp", "asg", "word", "prefix", "sub", "less", "eq"} -> Two(k)
    [] k = "rel" -> {<<k>>}
    [] k \in {"bit", "back"} -> {<<k, s, b>> : s \in Slots, b \in Bits}
    [] k = "erase" -> {<<k, s, n>> : s \in Slots, n \in -1..(M + 1)}
\* random words: any bits, runs, and words with a common period, so that long partial matches occur
RandBits(n) == [i \in 1..n |-> RandomElement(Bits)]
RandRun(n) == LET c == RandomElement(Bits) z == RandomElement(0..n) IN [i \in 1..n |-> IF i = z THEN 1 - c ELSE c]
RandPer(n) == LET p == RandomElement(1..4) q == RandBits(4) IN [i \in 1..n |-> q[((i - 1) % p) + 1]]
\* lengths: any, and where R is large, often one next to a power of two
RandLen(zz) == IF R < 100 \/ RandomElement(1..3) = 1 THEN RandomElement(0..R)
           ELSE RandomElement({n \in {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513} : n <= R})
RandWord(zz) == LET n == RandLen(0) r == RandomElement(1..4)
            IN CASE r = 1 -> RandBits(n) [] r = 2 -> RandRun(n) [] r = 3 -> RandPer(n) [] OTHER -> RandBits(RandomElement(0..3))
\* a part of a word already there, sometimes with one bit changed
RandPart(a) == IF a = <<>> THEN <<>>
               ELSE LET i == RandomElement(1..Len(a)) j == RandomElement(i..Len(a)) p == SubSeq(a, i, j)
                        q == RandomElement({x \in 1..Len(p) : x % 64 \in {0, 1, 63}} \cup {RandomElement(1..Len(p))})
                        r == RandomElement(1..5)
                    IN CASE r = 1 -> [p EXCEPT ![q] = 1 - @]
                         [] r = 2 -> [a EXCEPT ![i] = 1 - @]
                         [] r = 3 -> SubSeq(a, 1, j)
                         [] r = 4 -> [SubSeq(a, 1, Len(p)) EXCEPT ![q] = 1 - @]
                         [] OTHER -> p
\* a word like one already there, but for one bit, which is often at or next to a multiple of a power of two; and perhaps ending there
Twin(a) == IF Len(a) < 8 THEN RandWord(0)
           ELSE LET m == RandomElement({8, 16, 32, 64, 128, 256})
                    near == {x \in 1..Len(a) : (x + 1) % m \in {0, 1, 2}}
                    q == IF near = {} THEN RandomElement(1..Len(a)) ELSE RandomElement(near)
                    b == [a EXCEPT ![q] = 1 - @]
                    r == RandomElement(1..4)
                IN CASE r = 1 -> SubSeq(b, 1, q) [] r = 2 -> SubSeq(b, 1, RandomElement(q..Len(b))) [] r = 3 -> SubSeq(b, RandomElement(1..q), Len(b)) [] OTHER -> b
\* where words are long: mostly words next to one that is there, and all relations
\* very long words: few of them, and only what can be judged in linear time
VastLen(zz) == RandomElement({1000, 4096, 8191, 32767, 32768, 65535, 65536, 65537, 70000})
Vast(j) ==
  LET s == RandomElement(Slots)  t == RandomElement(Slots)  b == RandomElement(Bits)
      u == RandomElement({x \in Slots : w[x] # <<>>} \cup {s})
      k == IF \A x \in Slots : Len(w[x]) < 1000 THEN "mk" ELSE IF j \in {"sub", "rel", "def"} THEN "bytes" ELSE j
  IN CASE k = "mk" -> {<<k, s, IF Len(w[u]) > 8 /\ b = 1 THEN Twin(w[u]) ELSE LET n == VastLen(0) IN [i \in 1..n |-> RandomElement(Bits)] \o <<>>>>}
       [] k = "bytes" -> {<<k, u>>}
       [] k \in {"bit", "back"} -> {<<k, u, b>>}
       [] k = "erase" -> {<<k, u, RandomElement({1, 8, 256, 32768, 65535, 65536, 65537, Len(w[u]) - 1, Len(w[u]), Len(w[u]) + 1})>>}
       [] k = "word" -> {o \in {<<k, u, t>>} : Len(w[u]) + Len(w[t]) <= 150000}
       [] OTHER -> {<<k, u, t>>}
Pick1(j) == LET k == IF R < 100 THEN j ELSE RandomElement({j, RandomElement({"mk", "rel"})}) IN CASE k = "mk" /\ R >= 100 /\ RandomElement(1..3) > 1 -> {LET t == RandomElement(Slots) IN <<k, RandomElement(Slots \ {t}), Twin(w[t])>>}
             [] k = "mk" -> {<<k, RandomElement(Slots), IF RandomElement(Bits) = 0 THEN RandWord(0) ELSE RandPart(w[RandomElement(Slots)])>>}
             [] k = "erase" -> {<<k, s, n>> : s \in Slots, n \in {-3, 0, 1, 2, 3, 7, 8, 9} \cup (IF R < 100 THEN {} ELSE {16, 31, 32, 33, 63, 64, 65, 127, 128, 200, 256, 300})}
             [] k = "word" -> {o \in Two(k) : Len(w[o[2]]) + Len(w[o[3]]) <= 20 * R}
             [] OTHER -> OpsOf(k)
Pick(j) == IF R > 10000 THEN Vast(j) ELSE Pick1(j)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Short == \A s \in Slots : Len(w[s]) <= M
Obs == [w |-> w]
-----------------------------------------------------------------------------
\* the laws of the algebra, for all words in the variables
Laws == \A s, t \in Slots : LET a == w[s] b == w[t] IN
          /\ (a = b) \/ Less(a, b) \/ Less(b, a)                   \* total
          /\ ~(Less(a, b) /\ Less(b, a)) /\ ~Less(a, a)             \* strict
          /\ Prefix(a, b) => Subword(a, b) /\ (a = b \/ Less(a, b))
          /\ Prefix(a, a \o b) /\ Subword(b, a \o b) /\ Drop(a \o b, Len(a)) = b
          /\ \A u \in Slots : Less(a, b) /\ Less(b, w[u]) => Less(a, w[u])
          /\ Prefix(a, b) /\ Prefix(b, a) => a = b
          /\ Subword(a, b) /\ Subword(b, a) => a = b
StepOK(op) == \A s \in Slots : op[1] \in {"new", "end", "rel"} \/ s = op[2] \/ w'[s] = w[s]
=============================================================================
