------------------------------- MODULE TestFw -------------------------------
(* The test framework (include/test.hpp) as counters that checks change. A   *)
(* check's verdict is computed here from the values it is given; a value may *)
(* also be an exception: Std (derived from std::exception) or Odd (anything).*)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Max       \* values 0..Max
VARIABLES failures, skipped, cases, class, out
vars == <<failures, skipped, cases, class, out>>
\* counters only ever grow by one: what matters of the state is the class name
SView == class
Reply(s, v) == [s |-> s, v |-> v]
\* every error line names the place and, where there are operands, has the check as written
Told(s, v) == Reply(s, Append(v, v[1]))
Std == -1
Odd == -2
NaN == -3           \* equal to nothing, itself included, and in no order with anything
Vals == 0..Max
AnyVals == Vals \cup {Std, Odd}
Bool(b) == IF b THEN 1 ELSE 0
Init == failures = 0 /\ skipped = 0 /\ cases = 0 /\ class = "???" /\ out = Reply("init", <<>>)
\* the reply: whether the next statement is reached, and lines on the error stream with ERROR, WARNING, NOTIFICATION,
\* whether the output has an error too, and how often the statement ran (where it matters)
Count(f, s, c) == failures' = failures + f /\ skipped' = skipped + s /\ cases' = cases + c
Go(how, f, ran) == Count(f, 0, 0) /\ class' = class /\ out' = Told(how, <<f, 0, 0, 0, ran>>)
Pass(ran) == Go("next", 0, ran)
\* the output of a failed verdict has an error as well; that of a caught exception need not
FailC(ran) == Count(1, 0, 0) /\ class' = class /\ out' = Told("next", <<1, 0, 0, 1, ran>>)
FailX(ran) == Count(1, 0, 0) /\ class' = class /\ \E e \in {0, 1} : out' = Told("next", <<1, 0, 0, e, ran>>)
Escape(ran) == Go("escaped", 0, ran)
\* a check of values one of which throws: it may let it pass or count it
Unchecked(ran) == Escape(ran) \/ FailX(ran)
Verdict(ok) == IF ok THEN Pass(0) ELSE FailC(0)
Throws(a) == a \in {Std, Odd}
Eq(a, b) == a = b /\ a # NaN
Ordered(a, b) == a # NaN /\ b # NaN
Cmp(c, a, b) == CASE c = "==" -> Eq(a, b) [] c = "!=" -> ~Eq(a, b) [] ~Ordered(a, b) -> FALSE
                  [] c = "<" -> a < b [] c = "<=" -> a <= b [] c = ">" -> a > b [] c = ">=" -> a >= b
Diff(a, b) == IF a < b THEN b - a ELSE a - b
Do(op) ==
  CASE op[1] \in {"new", "end"} -> failures' = 0 /\ skipped' = 0 /\ cases' = 0 /\ class' = "???" /\ out' = Reply("ok", <<>>)
    \* verdicts on values: <<macro, form, a, b, ...>>
    [] op[1] \in {"check", "same", "sameas", "equal", "equals", "binary"} -> IF Throws(op[3]) \/ Throws(op[4]) THEN Unchecked(0) ELSE Verdict(Eq(op[3], op[4]))
    [] op[1] = "notequal" -> IF Throws(op[3]) \/ Throws(op[4]) THEN Unchecked(0) ELSE Verdict(~Eq(op[3], op[4]))
    [] op[1] = "less" -> IF Throws(op[3]) \/ Throws(op[4]) THEN Unchecked(0) ELSE Verdict(Cmp("<", op[3], op[4]))
    [] op[1] \in {"compare", "rescompare"} -> IF Throws(op[3]) \/ Throws(op[4]) THEN Unchecked(0) ELSE Verdict(Cmp(op[5], op[3], op[4]))
    [] op[1] \in {"assert", "unary"} -> IF Throws(op[3]) THEN Unchecked(0) ELSE Verdict(op[3] # 0)
    \* real numbers of tenths
    [] op[1] = "within" -> IF Throws(op[3]) \/ Throws(op[4]) THEN Unchecked(0) ELSE Verdict(Ordered(op[3], op[4]) /\ Diff(op[3], op[4]) <= op[5])
    [] op[1] \in {"static", "concept", "sametype", "equivtype"} -> Verdict(op[3] = op[4])
    \* the same, but only warning
    [] op[1] = "checkwarn" -> IF Throws(op[3]) \/ Throws(op[4]) THEN Unchecked(0)
                              ELSE Count(0, 0, 0) /\ class' = class /\ out' = Told("next", <<0, Bool(~Eq(op[3], op[4])), 0, 0, 0>>)
    \* statements, run once
    [] op[1] \in {"try", "evaluate", "assign"} -> IF Throws(op[3]) THEN FailX(1) ELSE Pass(1)
    [] op[1] = "call" -> IF op[3] = Std THEN FailX(1) ELSE IF op[3] = Odd THEN Unchecked(1) ELSE Pass(1)
    [] op[1] \in {"execute", "print"} -> IF Throws(op[3]) THEN Escape(1) ELSE Pass(1)
    \* declarations: the constructor throws at its op[4]-th call, of which there are one or two; then the variable is there, or
    \* it cannot be, and the exception goes on
    [] op[1] \in {"declare", "named", "assignconstruct"} ->
         IF ~Throws(op[3]) THEN Pass(0) ELSE IF op[4] = 1 THEN FailX(0) ELSE Count(1, 0, 0) /\ class' = class /\ \E e \in {0, 1} : out' = Told("escaped", <<1, 0, 0, e, 0>>)
    [] op[1] \in {"construct", "defconstruct"} -> IF Throws(op[3]) THEN Escape(0) ELSE Pass(0)
    \* exceptions expected: the one thrown is of the type, of a type derived from it, of another, odd, or none is
    [] op[1] = "throws" -> IF op[2] \in {1, 2} THEN Pass(1) ELSE FailC(1)
    [] op[1] = "fail" -> IF op[2] \in {1, 2, 3, 4} THEN Pass(1) ELSE FailC(1)
    \* checks within checks: a statement that has op[3] failing checks, and then throws (op[4]: 0 not, 1 expected, 2 another, 3 odd)
    [] op[1] = "nested" ->
         LET x == op[4]
             outer == CASE op[2] \in {"call", "try"} -> Bool(x # 0)
                        [] op[2] = "throws" -> Bool(x # 1)
                        [] op[2] = "fail" -> Bool(x = 0)
                        [] OTHER -> 0
             escapes == x # 0 /\ (op[2] \in {"execute", "class"} \/ (op[2] = "call" /\ x = 3))
             n == op[3] + outer - Bool(op[2] = "call" /\ x = 3)
         IN /\ class' = IF op[2] = "class" THEN "Nested" ELSE class
            /\ IF op[2] = "call" /\ x = 3
               THEN \/ Count(op[3], 0, 0) /\ out' = Told("escaped", <<op[3], 0, 0, Bool(op[3] > 0), 1>>)
                    \/ Count(op[3] + 1, 0, 0) /\ \E e \in {Bool(op[3] > 0), 1} : out' = Told("next", <<op[3] + 1, 0, 0, e, 1>>)
               ELSE /\ Count(n, 0, 0)
                    /\ \E e \in (IF n = 0 THEN {0} ELSE IF op[3] > 0 THEN {1} ELSE IF op[2] \in {"call", "try"} THEN {0, 1} ELSE {1}) :
                         out' = Told(IF escapes THEN "escaped" ELSE "next", <<n, 0, 0, e, 1>>)
    \* the positions an iterator visits: as many as expected, and each what is expected; lengths op[3] against op[4], the op[5]-th (if any) differs
    [] op[1] = "walk" -> LET bad == Bool(op[5] > 0 /\ op[5] <= op[3] /\ op[5] <= op[4]) + Bool(op[3] # op[4])
                         IN Count(bad, 0, 0) /\ class' = class /\ out' = Told("next", <<bad, 0, 0, Bool(bad > 0), 0>>)
    \* bookkeeping
    [] op[1] = "skip" -> Count(0, 1, 0) /\ class' = class /\ out' = Told("next", <<0, 0, 0, 0, 0>>)
    [] op[1] = "title" -> Count(0, 0, 1) /\ class' = class /\ out' = Told("next", <<0, 0, 0, 0, 0>>)
    [] op[1] = "comment" -> Pass(0)
    [] op[1] = "warn" -> Count(0, 0, 0) /\ class' = class /\ out' = Told("next", <<0, 1, 0, 0, 0>>)
    [] op[1] = "notify" -> Count(0, 0, 0) /\ class' = class /\ out' = Told("next", <<0, 0, 1, 0, 0>>)
    [] op[1] = "class" -> Count(0, 0, 0) /\ class' = op[2] /\ out' = Told("next", <<0, 0, 0, 0, 1>>)
    \* releases what the non-null elements of a vector of pointers point to, each once, and nulls them
    [] op[1] = "clean" -> Pass(0)
\* a call; variables named like a macro's own; an expression of low precedence; real numbers, which may be none; numbers that differ in their
\* upper halves only; texts, some of them long; a class of its own
Forms == 1..3
Other == 4..7
Few == {0, 1, 2, Std}
FewOr(f) == IF f = 4 THEN Few \cup {NaN} ELSE Few
Two == {"check", "same", "sameas", "equal", "equals", "binary", "notequal", "less", "checkwarn"}
Kinds == Two \cup {"compare", "rescompare", "assert", "unary", "within", "static", "concept", "sametype", "equivtype", "try", "evaluate", "assign", "call", "execute",
                   "print", "declare", "named", "assignconstruct", "construct", "defconstruct", "throws", "fail", "skip", "title", "comment", "warn", "notify", "class", "clean", "nested", "walk"}
OpsOf(kk) ==
  CASE kk \in Two -> {<<kk, f, a, b>> : f \in Forms, a \in AnyVals, b \in AnyVals} \cup UNION {{<<kk, f, a, b>> : a \in FewOr(f), b \in FewOr(f)} : f \in Other}
    [] kk \in {"compare", "rescompare"} -> {<<kk, f, a, b, c>> : f \in Forms, a \in AnyVals, b \in AnyVals, c \in {"==", "!=", "<", "<=", ">", ">="}}
                                         \cup UNION {{<<kk, f, a, b, c>> : a \in FewOr(f), b \in FewOr(f), c \in {"==", "!=", "<", "<=", ">", ">="}} : f \in Other}
    [] kk \in {"assert", "unary"} -> {<<kk, f, a>> : f \in Forms \cup Other, a \in AnyVals}
    [] kk = "within" -> {<<kk, f, a, b, t>> : f \in Forms, a \in AnyVals, b \in AnyVals, t \in {0, 1, 2}} \cup {<<kk, f, a, b, t>> : f \in Forms, a \in {3, 9, 14}, b \in {0, 5, 14, 23}, t \in {0, 2, 5, 11}} \cup UNION {{<<kk, f, a, b, t>> : a \in FewOr(f), b \in FewOr(f), t \in {0, 1}} : f \in {4, 5}}
    [] kk \in {"static", "concept", "sametype", "equivtype"} -> {<<kk, 1, a, b>> : a \in {0, 1}, b \in {0, 1}}
    [] kk \in {"try", "evaluate", "assign", "call", "execute", "print"} -> {<<kk, f, a>> : f \in 1..2, a \in AnyVals}
    [] kk \in {"declare", "named", "assignconstruct", "construct", "defconstruct"} -> {<<kk, 1, a, n>> : a \in AnyVals, n \in {1, 2}}
    [] kk \in {"throws", "fail"} -> {<<kk, f>> : f \in 1..5}
    [] kk = "class" -> {<<kk, c>> : c \in {"Alpha", "Beta"}}
    [] kk = "nested" -> {<<kk, m, n, x>> : m \in {"call", "try", "throws", "fail", "execute", "class"}, n \in 0..2, x \in 0..3}
    [] kk = "walk" -> {<<kk, 1, n, m, x>> : n \in 0..3, m \in 0..3, x \in 0..2}
    [] kk = "clean" -> {<<kk, n>> : n \in 0..4}
    [] OTHER -> {<<kk, 1>>}
Next == \E kk \in Kinds : \E op \in OpsOf(kk) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [f |-> failures, s |-> skipped, c |-> cases, class |-> class]
-----------------------------------------------------------------------------
\* one failure is one error line, and the other way round
StepOK(op) ==
  op[1] \notin {"new", "end"} =>
  /\ failures' - failures = out'.v[1] /\ (op[1] \in {"nested", "walk"} \/ out'.v[1] \in {0, 1})
  /\ op[1] \in {"skip", "title", "comment", "warn", "notify", "class", "checkwarn", "execute", "print", "construct", "defconstruct"} /\ out'.s = "next" => failures' = failures \/ op[1] = "checkwarn"
  /\ skipped' - skipped = Bool(op[1] = "skip") /\ cases' - cases = Bool(op[1] = "title")
=============================================================================
