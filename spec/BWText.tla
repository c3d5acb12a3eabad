------------------------------- MODULE BWText -------------------------------
(* The text forms of binary words: writing, and reading back                  *)
(* (include/binary_word.hpp). Text is a sequence of character codes.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS L,        \* every text up to this length over the alphabet
          Alpha,    \* alphabet: character codes
          R         \* longest word in random behaviours
VARIABLES a,        \* contents of the word read into
          f,        \* formatting state of the stream written to: <<base, showpos, boolalpha>>
          out
vars == <<a, f, out>>
SView == f
Reply(s, v) == [s |-> s, v |-> v]
Bits == {0, 1}
Ws == {32, 10, 9}
Old == <<1, 1, 0>>          \* contents before reading
Digits(b) == [i \in 1..Len(b) |-> 48 + b[i]]
Text(b) == IF b = <<>> THEN <<101>> ELSE Digits(b)
RECURSIVE Listed(_)
Listed(b) == IF b = <<>> THEN <<>> ELSE IF Len(b) = 1 THEN <<48 + b[1]>>
             ELSE LET h == Len(b) \div 2 IN Listed(SubSeq(b, 1, h)) \o <<44>> \o Listed(SubSeq(b, h + 1, Len(b)))
Bracketed(b) == <<91>> \o Listed(b) \o <<93>>
RECURSIVE Skip(_, _)
Skip(t, p) == IF p <= Len(t) /\ t[p] \in Ws THEN Skip(t, p + 1) ELSE p
Fail == [s |-> "fail", v |-> <<>>, p |-> 0]
RECURSIVE Leading(_, _, _)
Leading(t, p, acc) == IF p <= Len(t) /\ t[p] \in {48, 49} THEN Leading(t, p + 1, Append(acc, t[p] - 48)) ELSE [s |-> "ok", v |-> acc, p |-> p]
RECURSIVE Items(_, _, _)
Items(t, p0, acc) ==
  LET p == Skip(t, p0)  q == Skip(t, p + 1)
  IN IF p > Len(t) \/ t[p] \notin {48, 49} \/ q > Len(t) THEN Fail
     ELSE IF t[q] = 93 THEN [s |-> "ok", v |-> Append(acc, t[p] - 48), p |-> q + 1]
     ELSE IF t[q] = 44 THEN Items(t, q + 1, Append(acc, t[p] - 48))
     ELSE Fail
\* reading from position p0: outcome, word, next position
Read(t, p0) ==
  LET p == Skip(t, p0)  q == Skip(t, p + 1)
  IN IF p > Len(t) THEN [s |-> "none", v |-> <<>>, p |-> p]                      \* there is no word
     ELSE IF t[p] = 91 THEN (IF q > Len(t) THEN Fail ELSE IF t[q] = 93 THEN [s |-> "ok", v |-> <<>>, p |-> q + 1] ELSE Items(t, q, <<>>))
     ELSE IF t[p] = 101 THEN [s |-> "ok", v |-> <<>>, p |-> p + 1]
     ELSE Leading(t, p, <<>>)
Rest(t, p) == SubSeq(t, p, Len(t))
Init == a = Old /\ f = <<10, 0, 0>> /\ out = Reply("init", <<>>)
RECURSIVE Joined(_, _)
Joined(ws, how) == IF ws = <<>> THEN <<>> ELSE (IF how[1] = 1 THEN Text(ws[1]) ELSE Bracketed(ws[1])) \o <<32>> \o Joined(Tail(ws), Tail(how))
\* reading n words one after another
RECURSIVE ReadMany(_, _, _)
ReadMany(t, p, n) == IF n = 0 THEN <<>> ELSE LET r == Read(t, p) IN <<r.v>> \o ReadMany(t, r.p, n - 1)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> a' = Old /\ f' = <<10, 0, 0>> /\ out' = Reply("ok", <<>>)
    [] op[1] = "fmt" -> f' = op[2] /\ a' = a /\ out' = Reply("ok", <<>>)
    [] op[1] = "write" -> UNCHANGED <<a, f>> /\ out' = Reply("ok", Text(op[2]))
    [] op[1] = "read" -> \* text: the word, and what is left unread
         /\ f' = f
         /\ LET r == Read(op[2], 1)
            IN IF r.s = "ok" THEN a' = r.v /\ out' = Reply("ok", Rest(op[2], r.p)) ELSE a' = Old /\ out' = Reply(r.s, <<>>)   \* the driver then restores the word
    [] op[1] = "make" -> \* from text, by constructor and by function
         /\ f' = f
         /\ LET r == Read(op[2], 1)
            IN IF r.s = "fail" THEN a' = Old /\ out' = Reply("fail", <<>>) ELSE a' = r.v /\ out' = Reply("ok", <<>>)
    [] op[1] = "many" -> \* words written one after another in either form, and read back
         UNCHANGED <<a, f>> /\ out' = Reply("ok", ReadMany(Joined(op[2], op[3]), 1, Len(op[2])))
    [] op[1] = "huge" -> \* a word of so many bits, written or listed in brackets, and read back: is it the word, and what is left
         UNCHANGED <<a, f>> /\ out' = Reply("ok", <<1, 32, 120>>)
Words(n) == UNION {[1..m -> Bits] : m \in 0..n}
\* what two digits next to each other mean inside brackets is left open
Open(t) == \E i \in DOMAIN t : t[i] = 91 /\ (\A j \in 1..(i - 1) : t[j] # 91) /\ \E j \in (i + 1)..(Len(t) - 1) : t[j] \in {48, 49} /\ t[j + 1] \in {48, 49}
Huge == {1000, 1024, 1025, 4095, 4096, 4097, 8193, 65537, 100000}
Texts == {t \in UNION {[1..n -> Alpha] : n \in 0..L} : ~Open(t)}
FlagTable == << <<10,0,0>>, <<16,0,0>>, <<10,1,0>>, <<10,1,1>>, <<16,1,1>>, <<10,0,1>> >>
Kinds == {"fmt", "write", "read", "make", "many", "huge"}
OpsOf(k) ==
  CASE k = "fmt" -> {<<k, FlagTable[i]>> : i \in 1..6}
    [] k = "write" -> {<<k, b>> : b \in Words(3)}
    [] k \in {"read", "make"} -> {<<k, t>> : t \in Texts}
    [] k = "huge" -> {<<k, n, how>> : n \in Huge, how \in 1..2}
    [] k = "many" -> {<<k, ws, how>> : ws \in [1..2 -> Words(1)], how \in [1..2 -> 1..2]}
\* lengths: any, and where R is large, often one next to a power of two
RandLen(zz) == IF R < 100 \/ RandomElement(1..3) = 1 THEN RandomElement(0..R)
           ELSE RandomElement({n \in {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513} : n <= R})
RandWord(zz) == LET n == RandLen(0) IN [i \in 1..n |-> RandomElement(Bits)]
RandSp(zz) == RandomElement({<<>>, <<>>, <<32>>, <<10>>, <<9, 32>>})
RECURSIVE Spread(_)
Spread(b) == IF b = <<>> THEN <<>> ELSE IF Len(b) = 1 THEN RandSp(0) \o <<48 + b[1]>> \o RandSp(0)
             ELSE LET h == Len(b) \div 2 IN Spread(SubSeq(b, 1, h)) \o <<44>> \o Spread(SubSeq(b, h + 1, Len(b)))
RandText(zz) == RandSp(0) \o (IF RandomElement({1, 2}) = 1 THEN Text(RandWord(0)) ELSE <<91>> \o Spread(RandWord(0)) \o RandSp(0) \o <<93>>)
Damage(t) == LET p == RandomElement(1..Len(t))  r == RandomElement(1..6)
             IN CASE r = 1 -> SubSeq(t, 1, p - 1) \o SubSeq(t, p + 1, Len(t))
                  [] r = 2 -> SubSeq(t, 1, p) \o <<RandomElement({44, 91, 93, 101, 32, 120, 50})>> \o SubSeq(t, p + 1, Len(t))
                  [] r = 3 -> SubSeq(t, 1, p)
                  [] OTHER -> t
RandTail(zz) == RandomElement({<<>>, <<>>, <<93>>, <<32, 91>>, <<44, 49>>, <<120>>, <<50>>, <<101>>, <<32, 49>>})
\* (where two digits meet inside brackets, a separator is put between them)
\* inside brackets: after any bracket
Shut(t) == LET b == IF \E i \in DOMAIN t : t[i] = 91 THEN CHOOSE i \in DOMAIN t : t[i] = 91 /\ \A j \in 1..(i - 1) : t[j] # 91 ELSE Len(t)
               bad == {i \in b..(Len(t) - 1) : t[i] \in {48, 49} /\ t[i + 1] \in {48, 49}}
           IN IF bad = {} THEN t ELSE LET i == CHOOSE i \in bad : TRUE IN SubSeq(t, 1, i) \o SubSeq(t, i + 2, Len(t))
Pick(k) ==
  CASE k \in {"read", "make"} -> {o \in {<<k, Shut(Shut(Shut(Damage(RandText(0) \o RandTail(0)))))>>} : ~Open(o[2])}
    [] k = "write" -> {<<k, RandWord(0)>>}
    [] k = "many" -> {LET n == RandomElement(0..5) IN <<k, [i \in 1..n |-> LET x == RandomElement(1..3) IN IF x = 1 THEN <<>> ELSE RandWord(0)], [i \in 1..n |-> RandomElement(1..2)]>>}
    [] OTHER -> OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [a |-> a, f |-> f, misc |-> 1]
-----------------------------------------------------------------------------
\* what is written reads back, in either form, wherever it stands; leading digits are the word
StepOK(op) ==
  /\ op[1] = "write" => Read(out'.v, 1) = [s |-> "ok", v |-> op[2], p |-> Len(out'.v) + 1] /\ f' = f
  /\ op[1] = "write" => Read(Bracketed(op[2]) \o <<32>>, 1) = [s |-> "ok", v |-> op[2], p |-> Len(Bracketed(op[2])) + 1]
  /\ op[1] = "many" => out'.v = op[2]
  /\ op[1] = "make" /\ op[2] # <<>> /\ op[2][1] \in {48, 49} => out'.s = "ok" /\ a' # <<>>
                                                   /\ \A i \in DOMAIN a' : op[2][i] = 48 + a'[i]
  /\ op[1] = "read" /\ out'.s = "ok" /\ a' # <<>> => Len(out'.v) + Len(a') <= Len(op[2])
=============================================================================
