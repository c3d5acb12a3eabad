------------------------------- MODULE TypeQ -------------------------------
(* Questions about types (include/metaprogramming.hpp): membership, position *)
(* and sameness in lists of types; which types convert to, are constructed   *)
(* and assigned from, or derive from which; which calls are valid and what   *)
(* they give; the types arithmetic gives. There is no state: the             *)
(* specification is the table of answers.                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Lengths,   \* lengths of lists
          Asked      \* kinds of questions
VARIABLES asked, out \* the last question, and the answer
vars == <<asked, out>>
SView == IF asked = <<>> THEN 0 ELSE 0     \* nothing is remembered
Reply(s, r) == [s |-> s, v |-> r]
Init == asked = <<>> /\ out = Reply("init", <<>>)

\* --- lists of types, numbered 1.. -----------------------------------------------------------------------
Member(t, ts) == \E i \in 1..Len(ts) : ts[i] = t
Position(t, ts) == CHOOSE i \in 0..(Len(ts) - 1) : ts[i + 1] = t /\ \A j \in 1..i : ts[j] # t
AllSame(ts) == \A i, j \in 1..Len(ts) : ts[i] = ts[j]

\* --- types: a base, possibly constant, possibly a reference ---------------------------------------------
\* P a class; Q derived from P; I made from a P; E made from a P but only explicitly; N can be moved but not copied;
\* Z derived from P, but nobody else may know; S an enumeration of its own; PP and QP point to a P, a Q
Numbers == <<"short", "int", "unsigned", "double">>
Classes == <<"P", "Q", "I", "E", "N", "Z">>
Others == <<"S", "PP", "QP">>
Bases == Numbers \o Classes \o Others
Forms == <<"value", "const", "ref", "cref", "rref">>
IsNumber(b) == \E i \in 1..Len(Numbers) : Numbers[i] = b
IsClass(b) == \E i \in 1..Len(Classes) : Classes[i] = b
\* a type is given by two numbers: its base and its form
Ty(x) == [b |-> Bases[x[1]], f |-> Forms[x[2]]]
IsConst(T) == T.f \in {"const", "cref"}
IsValue(T) == T.f \in {"value", "const"}
IsLvalue(T) == T.f \in {"ref", "cref"}
Related(f, t) == f = t \/ (f = "Q" /\ t = "P")                                 \* the same, or derived from it
Implicit(f, t) == f # t /\ ((IsNumber(f) /\ IsNumber(t)) \/ (f \in {"P", "Q"} /\ t = "I") \/ (f = "QP" /\ t = "PP"))   \* makes a new object
Explicit(f, t) == f \in {"P", "Q"} /\ t = "E"
\* can a new object of base b be made, without being asked explicitly, from an F?
Makes(F, b) == IF F.b = b THEN (b = "N" => ~IsLvalue(F) /\ ~IsConst(F)) ELSE Related(F.b, b) \/ Implicit(F.b, b)
Converts(F, T) ==
  CASE IsValue(T) -> Makes(F, T.b)
    [] T.f = "ref" -> Related(F.b, T.b) /\ IsLvalue(F) /\ ~IsConst(F)
    [] T.f = "cref" -> Related(F.b, T.b) \/ Implicit(F.b, T.b)
    [] T.f = "rref" -> IF Related(F.b, T.b) THEN ~IsLvalue(F) /\ ~IsConst(F) ELSE Implicit(F.b, T.b)
Constructs(T, F) == Makes(F, T.b) \/ Explicit(F.b, T.b)      \* for a T that is not a reference
\* t = f, for a t of type T and an f of type F
Assigns(T, F) == ~IsConst(T) /\ (T.f = "ref" \/ IsClass(T.b)) /\ Makes(F, T.b)
Derives(D, B) == IsValue(D) /\ IsValue(B) /\ IsClass(D.b) /\ Related(D.b, B.b)
NoArgument(T) == IsValue(T) /\ T.b \notin {"I", "E"}
Copies(T) == IsValue(T) /\ T.b # "N"      \* for a T that is not a reference
Given(T) == IF T.f = "const" /\ ~IsClass(T.b) THEN [T EXCEPT !.f = "value"] ELSE T     \* what a call gives: numbers and the like are never constant
LRef(T) == [T EXCEPT !.f = IF IsConst(T) THEN "cref" ELSE "ref"]     \* T with & added

\* --- arithmetic -----------------------------------------------------------------------------------------
Rank(b) == CHOOSE i \in 1..Len(Numbers) : Numbers[i] = b
Max(i, j) == IF i > j THEN i ELSE j
Common(x, y) == Max(2, Max(x, y))         \* at least an int

\* --- made-up numbers: whatever is done with them is only written down -----------------------------------------
Sym(i) == <<"a", "b", "c">>[i]
Bin(o, x, y) == o \o "(" \o x \o "," \o y \o ")"
Un(o, x) == o \o "(" \o x \o ")"
\* sum, difference, product, quotient, sum of products, equal, less, comparison, equality, inequality, and, or; in place the four
Symbolic(x, y) == << Bin("+", x, y), Bin("-", x, y), Bin("*", x, y), Bin("/", x, y), Bin("+", Bin("*", x, y), Bin("*", x, y)), Bin("==", x, y), Bin("<", x, y), Bin("<", x, y),
                     Bin("==", x, y), Bin("!=", x, y), Bin("&&", x, y), Bin("||", x, y), Bin("+=", x, y), Bin("-=", x, y), Bin("*=", x, y), Bin("/=", x, y) >>
SymbolicOne(x) == << Un("-", x), Un("!", x), Un("mag", x) >>
\* what a type is without a constant outside, and without a reference
NotConst(x) == IF x[2] = 2 THEN <<x[1], 1>> ELSE x
NotRef(x) == CASE x[2] = 3 -> <<x[1], 1>> [] x[2] = 4 -> <<x[1], 2>> [] x[2] = 5 -> <<x[1], 1>> [] OTHER -> x

\* what each made-up class has: operators on two of its own kind
Can(w, x, y) == (x = 1 /\ y = 1) \/ (x = y /\ x = w)   \* 1: an int; 2..6: a class with only the operator of that number
B(p) == IF p THEN 1 ELSE 0
Answer(q) ==
  CASE q[1] = "oneof" -> <<B(Member(q[2], q[3]))>>
    [] q[1] = "index" -> <<Position(q[2], q[3])>>
    [] q[1] = "allsame" -> <<B(AllSame(q[2]))>>
    [] q[1] = "first" -> <<q[2][1]>>
    [] q[1] = "second" -> <<q[2][2]>>
    [] q[1] = "kind" -> LET T == Ty(q[2]) IN
                        << B(IsValue(T) /\ IsNumber(T.b)), B(IsValue(T) /\ T.b \in {"short", "int", "unsigned"}), B(IsValue(T) /\ T.b = "double"),
                           B(IsValue(T) /\ T.b = "unsigned"), B(IsValue(T) /\ T.b \in {"short", "int"}), B(NoArgument(T)) >>
    [] q[1] = "copies" -> <<B(Copies(Ty(q[2])))>>
    [] q[1] = "same" -> <<B(q[2] = q[3])>>
    [] q[1] = "converts" -> <<B(Converts(Ty(q[2]), Ty(q[3]))), B(q[2] = q[3] \/ Converts(Ty(q[2]), Ty(q[3])))>>
    [] q[1] = "constructs" -> <<B(Constructs(Ty(q[2]), Ty(q[3]))), B(Constructs(Ty(q[2]), Ty(q[3])) /\ ~Converts(Ty(q[3]), Ty(q[2])))>>
    [] q[1] = "assigns" -> <<B(Assigns(Ty(q[2]), Ty(q[3])))>>
    [] q[1] = "derives" -> <<B(Derives(Ty(q[2]), Ty(q[3])))>>
    \* f : parameter -> int, called with an argument
    [] q[1] = "call" -> <<B(Converts(Ty(q[3]), Ty(q[2])))>>
    \* f : two parameters, called with two arguments, the first too; and with the wrong number of them
    [] q[1] = "call2" -> <<B(Converts(Ty(q[4]), Ty(q[2])) /\ Converts(Ty(q[5]), Ty(q[3]))), 0, 0>>
    \* f : int -> result; can the result be assigned to, and does it convert to, an R?
    [] q[1] = "returns" -> <<B(Assigns(LRef(Ty(q[2])), Given(Ty(q[3])))), B(Converts(Given(Ty(q[3])), Ty(q[2])))>>
    \* the same, but the call itself is not valid
    [] q[1] = "nocall" -> <<0, 0, 0>>
    [] q[1] = "result" -> <<q[2], q[2]>>
    [] q[1] = "arith" -> [i \in 1..6 |-> Common(q[2], q[3])]     \* sum, difference, product, quotient, sum of products, negated sum
    [] q[1] = "inplace" -> [i \in 1..4 |-> q[2]]
    [] q[1] = "symbolic" -> Symbolic(Sym(q[2]), Sym(q[3]))
    [] q[1] = "symbolic1" -> SymbolicOne(Sym(q[2])) \o Symbolic(Sym(q[2]), Sym(q[2]))     \* the second one left out
    [] q[1] = "strip" -> <<NotConst(q[2]), NotRef(q[2])>>
    [] q[1] = "logic" -> [i \in 1..8 |-> 1]
    [] q[1] = "negate" -> <<Common(q[2], q[2])>>
    [] q[1] = "can" -> <<B(Can(2, q[2], q[3])), B(Can(3, q[2], q[3])), B(Can(4, q[2], q[3])), B(Can(5, q[2], q[3])), B(Can(6, q[2], q[3]))>>
Do(op) == IF op[1] \in {"new", "end"} THEN asked' = <<>> /\ out' = Reply("ok", <<>>)
          ELSE asked' = op /\ out' = Reply("ok", Answer(op))

\* how many different types there are in lists of a length
Alphabet(n) == CASE n <= 4 -> 4 [] n = 5 -> 3 [] OTHER -> 2
\* longer ones: all of one type, except at one or two positions
Lists(n) == IF n <= 7 THEN [1..n -> 1..Alphabet(n)] ELSE {[j \in 1..n |-> IF j \in {x, y} THEN 2 ELSE 1] : x \in 0..n, y \in {0, n}}
Kinds == Asked
Types == {<<i, j>> : i \in 1..Len(Bases), j \in 1..Len(Forms)}
Values == {x \in Types : IsValue(Ty(x))}
Few == {<<2, 1>>, <<2, 3>>, <<5, 4>>, <<6, 1>>, <<7, 1>>, <<9, 5>>}   \* for the calls with two arguments
OpsOf(k) ==
  CASE k = "oneof" -> UNION {{<<k, t, ts>> : t \in 1..Alphabet(n), ts \in Lists(n)} : n \in Lengths}
    [] k = "index" -> UNION {{<<k, ts[i], ts>> : i \in 1..n, ts \in Lists(n)} : n \in Lengths}
    [] k = "allsame" -> UNION {{<<k, ts>> : ts \in Lists(n)} : n \in Lengths}
    [] k = "first" -> UNION {{<<k, ts>> : ts \in Lists(n)} : n \in Lengths \ {0}}
    [] k = "second" -> UNION {{<<k, ts>> : ts \in Lists(n)} : n \in Lengths \ {0, 1}}
    [] k = "kind" -> {<<k, x>> : x \in Types}
    [] k = "copies" -> {<<k, x>> : x \in Values}
    [] k \in {"same", "converts", "assigns", "derives", "call", "returns", "nocall"} -> {<<k, x, y>> : x \in Types, y \in Types}
    [] k = "constructs" -> {<<k, x, y>> : x \in Values, y \in Types}
    [] k = "call2" -> {<<k, x, y, a, b>> : x \in Few, y \in Few, a \in Few, b \in Few}
    [] k = "result" -> {<<k, x>> : x \in {y \in Types : y[2] # 2}}
    [] k \in {"arith", "inplace", "logic"} -> {<<k, i, j>> : i \in 1..Len(Numbers), j \in 1..Len(Numbers)}
    [] k = "negate" -> {<<k, i>> : i \in 1..Len(Numbers)}
    [] k = "symbolic" -> {<<k, i, j>> : i \in 1..3, j \in 1..3}
    [] k = "symbolic1" -> {<<k, i>> : i \in 1..3}
    [] k = "strip" -> {<<k, x>> : x \in Types}
    [] k = "can" -> {<<k, i, j>> : i \in 1..6, j \in 1..6}
Next == \E k \in Kinds : \E op \in OpsOf(k) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == <<>>
-----------------------------------------------------------------------------
(* What the property says, independently of the table.                       *)
StepOK(op) ==
  /\ op[1] = "oneof" => (out'.v[1] = 1) = (op[2] \in {op[3][i] : i \in 1..Len(op[3])})
  /\ op[1] = "index" => op[3][out'.v[1] + 1] = op[2] /\ op[2] \notin {op[3][i] : i \in 1..out'.v[1]}
  /\ op[1] = "allsame" => (out'.v[1] = 1) = (Cardinality({op[2][i] : i \in 1..Len(op[2])}) <= 1)
  \* a conversion is also a construction; explicit and implicit exclude each other
  /\ op[1] = "constructs" => (Converts(Ty(op[3]), Ty(op[2])) => out'.v = <<1, 0>>)
  \* whatever a constant accepts as an argument, so does ... the reference to a constant
  /\ op[1] = "converts" /\ Ty(op[3]).f = "value" /\ out'.v[1] = 1 => Converts(Ty(op[2]), [b |-> Ty(op[3]).b, f |-> "cref"])
  /\ op[1] = "arith" => \A i \in 1..6 : out'.v[i] >= op[2] /\ out'.v[i] >= op[3]
=============================================================================
