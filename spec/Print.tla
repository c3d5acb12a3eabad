------------------------------- MODULE Print -------------------------------
(* The text form of containers, and the formatting state of the stream they  *)
(* are written to. A printed thing is described by a type and a value; the   *)
(* text is a recursive function of the two and of the stream's state.        *)
(* (include/container.hpp, stlio.hpp, writable.hpp, string.hpp)              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N,        \* longest container in enumerated behaviours
          R,        \* longest container in random behaviours
          Flags     \* formatting states used, as positions in FlagTable
VARIABLES f,        \* formatting state of the stream: <<base, showpos, boolalpha>>
          out
vars == <<f, out>>
SView == f
Reply(s, v) == [s |-> s, v |-> v]

\* types -----------------------------------------------------------------------
I == <<"int">>   B == <<"bool">>   S == <<"str">>   W == <<"wr">>  D == <<"real">>  K == <<"char">>    \* wr: an object of a class with a write operation
Q(t) == <<"seq", t>>           \* array, shared array, list, linked list, vector
C(t) == <<"set", t>>
M(k, t) == <<"map", k, t>>
T(ts) == <<"tup", ts>>         \* pairs are tuples of two
Types == [array |-> Q(I), shared |-> Q(I), list |-> Q(I), linked |-> Q(I), arraybool |-> Q(B), liststr |-> Q(S), listwr |-> Q(W),
          set |-> C(I), setstr |-> C(S), map |-> M(I, I), mapstr |-> M(S, S),
          pair |-> T(<<I, S>>), tuple0 |-> T(<<>>), tuple1 |-> T(<<I>>), tuple2 |-> T(<<I, I>>), tuple3 |-> T(<<B, S, I>>), tuple5 |-> T(<<I, I, S, B, W>>),
          arrayarray |-> Q(Q(I)), sharedlist |-> Q(Q(I)), listset |-> Q(C(I)), linkedlinked |-> Q(Q(S)), listpair |-> Q(T(<<I, S>>)),
          listmap |-> Q(M(I, I)), setlist |-> C(Q(I)), setpair |-> C(T(<<I, I>>)), maplist |-> M(I, Q(I)), mapmap |-> M(S, M(I, I)), mapset |-> M(I, C(S)),
          pairnest |-> T(<<Q(I), C(S)>>), tuplenest |-> T(<<M(I, S), Q(Q(I)), T(<<I, I>>)>>), listtuple |-> Q(T(<<I, B>>)), cube |-> Q(Q(Q(I))),
          wr |-> W, string |-> S, int |-> I, bool |-> B, real |-> D, char |-> K, listreal |-> Q(D), arraychar |-> Q(K), linkedreal |-> Q(D), mapreal |-> M(I, D), mapchar |-> M(S, K), tuplereal |-> T(<<D, K, B>>)]
Names == DOMAIN Types

\* text ------------------------------------------------------------------------
RECURSIVE Num(_, _)      \* a natural number in a base
DigitCode(d) == IF d < 10 THEN 48 + d ELSE 87 + d
Num(n, b) == IF n < b THEN <<DigitCode(n)>> ELSE Num(n \div b, b) \o <<DigitCode(n % b)>>
RECURSIVE HexComp(_, _)  \* k hexadecimal digits of the two's complement of -n-1
HexComp(n, k) == IF k = 0 THEN <<>> ELSE HexComp(n \div 16, k - 1) \o <<DigitCode(15 - (n % 16))>>
IntText(n, g) == IF g[1] = 16 THEN (IF n < 0 THEN HexComp((0 - n) - 1, 8) ELSE Num(n, 16))
                 ELSE IF n < 0 THEN <<45>> \o Num(0 - n, 10)
                 ELSE IF g[2] = 1 THEN <<43>> \o Num(n, 10) ELSE Num(n, 10)
True_ == <<116, 114, 117, 101>>
False_ == <<102, 97, 108, 115, 101>>
RECURSIVE Text(_, _, _)
RECURSIVE Sep2(_, _, _, _, _, _)
RECURSIVE TupText(_, _, _)
\* the texts of q[i..j] with separators between them (cut in half, to keep long ones cheap)
Sep2(t, q, i, j, sep, g) == IF i = j THEN Text(t, q[i], g)
                            ELSE LET h == (i + j) \div 2 IN Sep2(t, q, i, h, sep, g) \o sep \o Sep2(t, q, h + 1, j, sep, g)
Sep(t, q, sep, g) == IF q = <<>> THEN <<>> ELSE Sep2(t, q, 1, Len(q), sep, g)
TupText(ts, v, g) == IF ts = <<>> THEN <<>>
                     ELSE IF Len(ts) = 1 THEN Text(ts[1], v[1], g)
                     ELSE Text(ts[1], v[1], g) \o <<44>> \o TupText(Tail(ts), Tail(v), g)
\* some real numbers, by their texts with nine and with six significant digits
RealTab == << <<<<48, 46, 53>>, <<48, 46, 53>>>>,
              <<<<45, 50, 46, 50, 53>>, <<45, 50, 46, 50, 53>>>>,
              <<<<51>>, <<51>>>>,
              <<<<49, 101, 43, 50, 48>>, <<49, 101, 43, 50, 48>>>>,
              <<<<45, 48, 46, 48, 48, 48, 49>>, <<45, 48, 46, 48, 48, 48, 49>>>>,
              <<<<49, 50, 51, 52, 53, 54, 55>>, <<49, 46, 50, 51, 52, 53, 55, 101, 43, 48, 54>>>>,
              <<<<48, 46, 51, 51, 51, 51, 51, 51, 51, 51, 51>>, <<48, 46, 51, 51, 51, 51, 51, 51>>>>,
              <<<<49, 48, 48, 48, 48, 48>>, <<49, 48, 48, 48, 48, 48>>>>,
              <<<<48>>, <<48>>>> >>
Text(t, v, g) ==
  CASE t[1] = "int" -> IntText(v, g)
    [] t[1] = "bool" -> IF g[3] = 1 THEN (IF v = 1 THEN True_ ELSE False_) ELSE IntText(v, g)
    [] t[1] = "str" -> v
    [] t[1] = "char" -> <<v>>
    [] t[1] = "real" -> LET x == RealTab[v][IF g[4] = 9 THEN 1 ELSE 2] IN IF g[2] = 1 /\ x[1] # 45 THEN <<43>> \o x ELSE x
    [] t[1] = "wr" -> <<60>> \o IntText(v, g) \o <<62>>
    [] t[1] = "seq" -> <<91>> \o Sep(t[2], v, <<44>>, g) \o <<93>>
    [] t[1] = "set" -> <<123>> \o Sep(t[2], v, <<44>>, g) \o <<125>>
    [] t[1] = "entry" -> Text(t[2], v[1], g) \o <<58>> \o Text(t[3], v[2], g)
    [] t[1] = "map" -> <<123, 32>> \o Sep(<<"entry", t[2], t[3]>>, v, <<44, 32>>, g) \o (IF v = <<>> THEN <<125>> ELSE <<32, 125>>)
    [] t[1] = "tup" -> <<40>> \o TupText(t[2], v, g) \o <<41>>
Plain == <<10, 0, 0>>
Fresh == <<10, 0, 0, 6>>        \* a new stream, with its number of significant digits
Here == f \o <<9>>             \* the stream written to has nine
\* delimiters of the sequence writers: opening, closing, separator, descriptor; style 1 is the default of write_sequence,
\* style 2 the default of write_map_sequence
Styles == << <<91, 93, 44, 58>>, <<123, 125, 44, 58>>, <<40, 41, 59, 61>>, <<60, 62, 32, 124>>, <<124, 124, 124, 124>> >>
Ranged(e, v, st, g) == <<Styles[st][1]>> \o Sep(e, v, <<Styles[st][3]>>, g) \o <<Styles[st][2]>>
RECURSIVE Entries2(_, _, _, _, _)
Entries2(v, i, j, st, g) == IF i = j THEN Text(I, v[i][1], g) \o <<Styles[st][4]>> \o Text(I, v[i][2], g)
                            ELSE LET h == (i + j) \div 2 IN Entries2(v, i, h, st, g) \o <<Styles[st][3]>> \o Entries2(v, h + 1, j, st, g)
Entries(v, st, g) == IF v = <<>> THEN <<>> ELSE Entries2(v, 1, Len(v), st, g)
RangedMap(v, st, g) == <<Styles[st][1]>> \o Entries(v, st, g) \o <<Styles[st][2]>>

\* transitions -----------------------------------------------------------------
Init == f = Plain /\ out = Reply("init", <<>>)
Same == UNCHANGED f
Do(op) ==
  CASE op[1] \in {"new", "end"} -> f' = Plain /\ out' = Reply("ok", <<>>)
    [] op[1] = "fmt" -> \* base, sign shown, truth values as words
         f' = op[2] /\ out' = Reply("ok", <<>>)
    [] op[1] = "put" -> Same /\ out' = Reply("ok", Text(Types[op[2]], op[3], Here))
    [] op[1] \in {"tostring", "tostr"} -> Same /\ out' = Reply("ok", Text(Types[op[2]], op[3], Fresh))   \* not this stream
    [] op[1] \in {"seq", "pseq", "pshare", "aseq"} -> Same /\ out' = Reply("ok", Ranged(I, op[3], op[2], f))       \* range, range of pointers (equal values: one object, in pshare), plain array
    [] op[1] = "lseq" -> Same /\ out' = Reply("ok", Ranged(Q(I), op[3], op[2], f))                       \* range of lists
    [] op[1] \in {"mseq", "mpseq", "mpshare", "cseq"} -> Same /\ out' = Reply("ok", RangedMap(op[3], op[2], f))     \* map, map to pointers, index-coefficient pairs
    [] op[1] \in {"writer", "write"} -> Same /\ out' = Reply("ok", <<60>> \o IntText(op[2], f) \o <<62>>) \* through a writer; by the write operation

\* values ------------------------------------------------------------------------
Ints == <<-12, 0, 7, 255>>                      \* in increasing order, as are
Strs == << <<>>, <<97, 44, 10, 0, 98>>, <<122, 93>> >>   \* "", "a,b" with a line break and a null character in it, "z]"
IncSeqs(base, n) == {SelectSeq(base, LAMBDA x : x \in Z) : Z \in {Y \in SUBSET {base[i] : i \in DOMAIN base} : Cardinality(Y) <= n}}
Seqs(Z, n) == UNION {[1..m -> Z] : m \in 0..n}
\* keys in order, with any values
Maps(base, n, V) == UNION {{[i \in 1..Len(ks) |-> <<ks[i], vs[i]>>] : vs \in [1..Len(ks) -> V]} : ks \in IncSeqs(base, n)}
IntSet == {Ints[i] : i \in DOMAIN Ints}
CharSet == {44, 49, 120}
StrSet == {Strs[i] : i \in DOMAIN Strs}
Lists == << <<>>, <<-12>>, <<0, 7>>, <<7>> >>   \* in increasing (lexicographic) order
ListSet == {Lists[i] : i \in DOMAIN Lists}
Pairs == << <<-12, 7>>, <<0, 0>>, <<0, 255>>, <<7, -12>> >>
SetsI == {<<>>, <<0>>, <<-12, 7>>}
SetsS == {<<>>, <<Strs[1]>>, <<Strs[2], Strs[3]>>}
MapsI == {<<>>, << <<0, 7>> >>, << <<-12, 0>>, <<7, 255>> >>}
IS == IntSet \X StrSet
Values(k, n) ==
  CASE k \in {"array", "shared", "list", "linked"} -> Seqs(IntSet, n)
    [] k = "arraybool" -> Seqs({0, 1}, n)
    [] k = "liststr" -> Seqs(StrSet, n)
    [] k = "listwr" -> Seqs(IntSet, n)
    [] k = "set" -> IncSeqs(Ints, n)
    [] k = "setstr" -> IncSeqs(Strs, n)
    [] k = "map" -> Maps(Ints, n, {-12, 7})
    [] k = "mapstr" -> Maps(Strs, n, StrSet)
    [] k = "pair" -> IS
    [] k = "tuple0" -> {<<>>}
    [] k = "tuple1" -> {<<i>> : i \in IntSet}
    [] k = "tuple2" -> IntSet \X IntSet
    [] k = "tuple3" -> {0, 1} \X StrSet \X {7, -12}
    [] k = "tuple5" -> {0} \X {7} \X StrSet \X {0, 1} \X {-12, 7}
    [] k \in {"arrayarray", "sharedlist"} -> Seqs(ListSet, n)
    [] k = "listset" -> Seqs(SetsI, n)
    [] k = "linkedlinked" -> Seqs({<<>>, <<Strs[1]>>, <<Strs[2], Strs[1]>>}, n)
    [] k = "listpair" -> Seqs({7} \X StrSet, n)
    [] k = "listmap" -> Seqs(MapsI, n)
    [] k = "setlist" -> IncSeqs(Lists, n)
    [] k = "setpair" -> IncSeqs(Pairs, n)
    [] k = "maplist" -> Maps(Ints, n, {<<>>, <<7, 0>>})
    [] k = "mapmap" -> Maps(Strs, n, MapsI)
    [] k = "mapset" -> Maps(Ints, n, SetsS)
    [] k = "pairnest" -> ListSet \X SetsS
    [] k = "tuplenest" -> {<<>>, << <<0, Strs[2]>> >>} \X {<<>>, <<Lists[1]>>, <<Lists[3], Lists[2]>>} \X {<<0, 7>>}
    [] k = "listtuple" -> Seqs({0, 7} \X {0, 1}, n)
    [] k = "cube" -> Seqs({<<>>, <<Lists[1]>>, <<Lists[2], Lists[3]>>}, n)
    [] k \in {"wr", "int"} -> IntSet
    [] k = "string" -> StrSet
    [] k = "bool" -> {0, 1}
    [] k = "real" -> DOMAIN RealTab
    [] k = "char" -> CharSet
    [] k \in {"listreal", "linkedreal"} -> Seqs({1, 2, 4, 6}, n)
    [] k = "arraychar" -> Seqs(CharSet, n)
    [] k = "mapreal" -> Maps(Ints, n, {3, 7})
    [] k = "mapchar" -> Maps(Strs, n, {49, 125})
    [] k = "tuplereal" -> (DOMAIN RealTab) \X CharSet \X {0, 1}
FlagTable == << <<10,0,0>>, <<16,0,0>>, <<10,1,0>>, <<10,1,1>>, <<16,1,1>>, <<10,0,1>> >>
Kinds == {"fmt", "put", "tostring", "tostr", "seq", "pseq", "pshare", "aseq", "lseq", "mseq", "mpseq", "mpshare", "cseq", "writer", "write"}
MapSeqs == Maps(Ints, N, {-12, 7})
OpsOf(k) ==
  CASE k = "fmt" -> {<<k, FlagTable[i]>> : i \in Flags}
    [] k \in {"put", "tostring", "tostr"} -> UNION {{<<k, n, v>> : v \in Values(n, N)} : n \in Names}
    [] k \in {"seq", "pseq", "pshare", "aseq"} -> {<<k, s, v>> : s \in 1..5, v \in Seqs(IntSet, N)}
    [] k = "lseq" -> {<<k, s, v>> : s \in 1..5, v \in Seqs(ListSet, N)}
    [] k \in {"mseq", "mpseq", "mpshare", "cseq"} -> {<<k, s, v>> : s \in 1..5, v \in MapSeqs}
    [] k \in {"writer", "write"} -> {<<k, i>> : i \in IntSet}
\* random, longer values: sequences of random elements, sets and maps over a random part of a longer base
RandBase == <<-100, -12, -1, 0, 1, 7, 9, 10, 255, 256, 1000, 99999>>
RandInt(zz) == RandBase[RandomElement(DOMAIN RandBase)]
RandStrBase == << <<>>, <<0>>, <<9, 65>>, <<10>>, <<32>>, <<34, 92>>, <<44>>, <<48, 49>>, <<65, 66, 67>>, <<91, 93>>, <<97>>, <<97, 44, 98>>, <<122, 93>>, <<123, 125>>, <<195, 169>>, <<255>> >>
\* lengths: any, and where R is large, often one next to a power of two
RandLen(zz) == IF R < 100 \/ RandomElement(1..3) = 1 THEN RandomElement(0..R)
           ELSE RandomElement({n \in {15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000} : n <= R /\ (R < 1000 \/ n > 500)})
LongStr(zz) == [i \in 1..RandLen(0) |-> CASE i % 7 = 0 -> 44 [] i % 11 = 0 -> 93 [] OTHER -> 97 + (i % 26)]
RandStr(top) == IF top /\ R > 20 /\ RandomElement(1..2) = 1 THEN LongStr(0) ELSE RandStrBase[RandomElement(DOMAIN RandStrBase)]
ManyInts == [i \in 1..R |-> 3 * i - 100]       \* keys where many are wanted
IntBase(zz) == IF R > 20 /\ RandomElement(1..2) = 1 THEN ManyInts ELSE RandBase
RandInc(base) == IF Len(base) > 20 THEN SelectSeq(base, LAMBDA x : x % 4 # RandomElement({0, 1, 2, 3, 4, 4, 4, 4}))
                 ELSE LET Z == RandomElement(SUBSET (DOMAIN base)) IN SelectSeq(base, LAMBDA x : \E i \in Z : base[i] = x)
IncOf(base, top) == IF top \/ R < 100 THEN RandInc(base) ELSE LET q == RandInc(base) IN SubSeq(q, 1, RandomElement(0..(IF Len(q) < 3 THEN Len(q) ELSE 3)))
RECURSIVE RandVal(_, _)   \* only the outermost level is long where R is large
Nest(t) == t[1] \in {"seq", "set", "map"}
RandVal(t, top) ==
  CASE t[1] \in {"int", "wr"} -> RandInt(0)
    [] t[1] = "bool" -> RandomElement({0, 1})
    [] t[1] = "str" -> RandStr(top)
    [] t[1] = "real" -> RandomElement(DOMAIN RealTab)
    [] t[1] = "char" -> RandomElement({0, 10, 32, 48, 44, 65, 93, 122, 125, 200, 255})
    [] t[1] = "seq" -> LET m == IF R < 100 THEN (IF Nest(t[2]) THEN RandomElement(0..4) ELSE RandLen(0))
                                ELSE IF ~top THEN RandomElement(0..3) ELSE IF Nest(t[2]) THEN RandomElement(0..40) ELSE RandLen(0)
                       IN [i \in 1..m |-> RandVal(t[2], FALSE)]
    [] t[1] = "set" -> IF t[2] = I THEN IncOf(IntBase(0), top) ELSE IF t[2] = S THEN IncOf(RandStrBase, top) ELSE IF t[2][1] = "seq" THEN RandInc(Lists) ELSE RandInc(Pairs)
    [] t[1] = "map" -> LET ks == IncOf(IF t[2] = I THEN (IF Nest(t[3]) THEN RandBase ELSE IntBase(0)) ELSE RandStrBase, top) IN [i \in 1..Len(ks) |-> <<ks[i], RandVal(t[3], FALSE)>>]
    [] t[1] = "tup" -> [i \in 1..Len(t[2]) |-> RandVal(t[2][i], FALSE)]
Pick(k) ==
  CASE k \in {"put", "tostring", "tostr"} -> {LET n == RandomElement(Names) IN <<k, n, RandVal(Types[n], TRUE)>>}
    [] k \in {"seq", "pseq", "pshare", "aseq"} -> {<<k, RandomElement(1..5), RandVal(Q(I), TRUE)>>}
    [] k = "lseq" -> {<<k, RandomElement(1..5), RandVal(Q(Q(I)), TRUE)>>}
    [] k \in {"mseq", "mpseq", "mpshare", "cseq"} -> {<<k, RandomElement(1..5), RandVal(M(I, I), TRUE)>>}
    [] OTHER -> OpsOf(k)
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [f |-> f, misc |-> 1]     \* everything else about the stream is as it was set
-----------------------------------------------------------------------------
\* Consequences the property states: printing leaves the stream's state; the text starts and ends with the delimiters
\* of its kind; a sequence of n numbers has exactly n - 1 separators; text conversion agrees with printing on a plain stream.
Count(q, c) == Cardinality({i \in DOMAIN q : q[i] = c})
StepOK(op) ==
  /\ op[1] \notin {"fmt", "new", "end"} => f' = f
  /\ op[1] \in {"put", "tostring", "tostr"} =>
       LET t == Types[op[2]]  x == out'.v  n == Len(x)
       IN /\ t[1] = "seq" => n >= 2 /\ x[1] = 91 /\ x[n] = 93
          /\ t[1] \in {"set", "map"} => n >= 2 /\ x[1] = 123 /\ x[n] = 125
          /\ t[1] = "tup" => n >= 2 /\ x[1] = 40 /\ x[n] = 41
          /\ t = Q(I) \/ t = C(I) \/ t = M(I, I) => Count(x, 44) = (IF op[3] = <<>> THEN 0 ELSE Len(op[3]) - 1)
          /\ t = M(I, I) => Count(x, 58) = Len(op[3])
          /\ op[1] = "put" /\ f = Plain => x = Text(t, op[3], Plain \o <<9>>)
  /\ op[1] \in {"seq", "pseq", "pshare", "aseq"} /\ op[2] \in 1..3 => Count(out'.v, Styles[op[2]][3]) = (IF op[3] = <<>> THEN 0 ELSE Len(op[3]) - 1)
  /\ op[1] \in {"mseq", "mpseq", "mpshare", "cseq"} /\ op[2] \in 1..3 => Count(out'.v, Styles[op[2]][4]) = Len(op[3])
=============================================================================
