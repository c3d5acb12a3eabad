------------------------------- MODULE Macros -------------------------------
(* Assertions and warnings (include/macros.hpp). The only state is which     *)
(* once-only messages have been written. Each operation is one use of a      *)
(* macro; the reply says how often the condition and the explanation were    *)
(* evaluated and whether the text that came out has the condition as written *)
(* and the explanation.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Debug,    \* whether this is a debug build
          Sites     \* places with a once-only message
VARIABLES said,     \* those that have written it
          out
vars == <<said, out>>
SView == said
Reply(s, v) == [s |-> s, v |-> v]
Always == {"assert", "assertmsg", "pre", "premsg"}
DebugOnly == {"dassert", "dassertmsg", "dpre"}
WithMsg == {"assertmsg", "premsg", "dassertmsg"}
\* conditions as written: a call; a macro; a comma; variables named as a macro's own might be; one that throws itself; quotes;
\* operators of low precedence; a number; a long one
RECURSIVE Times(_, _)
Times(n, x) == IF n = 0 THEN "" ELSE IF n % 2 = 1 THEN x \o Times(n - 1, x) ELSE Times(n \div 2, x \o x)
Text == <<"check(c)", "COND(c)", "(std::pair<int,int>(tick(c),1).first==1)", "result", "assertion_result", "ss",
          "explode(c)", "check(c) && \"50%d\"", "never() || check(c)", "check(c) ? 2 : 0", "value(c) == 1", "first_time", "error", "check(c) && (" \o Times(400, "1 + ") \o "1)">>
Forms == 1..14
\* ... of which the two sides of an equality
Left == <<"value(c)", "value(c) & 3", "COND(c)", "result", "value(c), value(c)">>
Right == <<"value(1)", "value(1)", "never() || value(1)", "value(1)", "">>
EqForms == 1..4
Message == "because 42, ss result error"
Pads == {0, 3, 40, 500}
Explain(n) == Message \o Times(n, "<%s %d> ")
Fn == <<"someone", "Some::where">>
Bool(b) == IF b THEN 1 ELSE 0
Init == said = {} /\ out = Reply("init", <<>>)
Do(op) ==
  CASE op[1] \in {"new", "end"} -> said' = {} /\ out' = Reply("ok", <<>>)
    \* <<macro, form, truth, condition as written, explanation>> -> <<evaluations of condition, of explanation, condition in text, explanation in text>>
    [] op[1] \in Always \cup DebugOnly ->
         /\ said' = said
         /\ out' = IF op[1] \in DebugOnly /\ ~Debug THEN Reply("none", <<0, 0, 0, 0>>)
                   ELSE IF op[2] = 7 THEN Reply("own", <<1, 0, 0, 0>>)       \* the condition throws
                   ELSE IF op[3] = 1 THEN Reply("none", <<1, 0, 0, 0>>)
                   ELSE Reply("throw", <<1, Bool(op[1] \in WithMsg), 1, Bool(op[1] \in WithMsg)>>)
    \* two sides, each evaluated once; the text has the equality as written and the two values
    [] op[1] = "equal" ->
         said' = said /\ out' = IF op[3] = 1 THEN Reply("none", <<2, 0, 0, 0>>) ELSE Reply("throw", <<2, 0, 1, 1>>)
    \* not reached: under a condition that does not hold
    [] op[1] = "unreached" -> said' = said /\ out' = Reply("none", <<0, 0, 0, 0>>)
    [] op[1] = "failmsg" -> said' = said /\ out' = Reply("throw", <<0, 1, 0, 1>>)
    [] op[1] = "notimpl" -> said' = said /\ out' = Reply("throw", <<0, 0, 0, 1>>)
    \* an exception of the type asked for
    [] op[1] = "raise" -> said' = said /\ out' = Reply(op[2], <<0, 1, 1, 1>>)
    [] op[1] = "threads" -> said' = said /\ out' = Reply("ok", <<op[2]>>)
    \* lines written to the error stream, whether it has the explanation, evaluations of the explanation
    [] op[1] \in {"notify", "warn", "error"} -> said' = said /\ out' = Reply("ok", <<1, 1, 1>>)
    [] op[1] \in {"once", "deprecated"} ->
         said' = said \cup {<<op[1], op[2]>>} /\ out' = IF <<op[1], op[2]>> \in said THEN Reply("ok", <<0, 0, 0>>) ELSE Reply("ok", <<1, 1, Bool(op[1] = "once")>>)
    \* a once-only message under a condition that does not hold
    [] op[1] \in {"nonce", "ndeprecated"} -> said' = said /\ out' = Reply("ok", <<0, 0, 0>>)
    \* two of them in one scope
    [] op[1] = "both" ->
         LET new == {<<"x", op[2]>>, <<"y", op[2]>>} \ said IN said' = said \cup new /\ out' = Reply("ok", <<Cardinality(new), Bool(new # {}), Cardinality(new)>>)
Kinds == Always \cup DebugOnly \cup {"equal", "unreached", "failmsg", "notimpl", "raise", "notify", "warn", "error", "once", "deprecated", "nonce", "ndeprecated", "both", "threads"}
OpsOf(kk) ==
  CASE kk \in Always \cup DebugOnly -> {<<kk, f, t, Text[f], Message>> : f \in Forms, t \in {0, 1}} \cup (IF kk \in WithMsg THEN {<<kk, 1, 0, Text[1], Explain(n)>> : n \in Pads} ELSE {})
    [] kk = "equal" -> {<<kk, f, t, Left[f], Right[f]>> : f \in EqForms, t \in {0, 1}}
    [] kk = "unreached" -> {<<kk, f>> : f \in 1..8}
    [] kk = "failmsg" -> {<<kk, 1, 0, "", Explain(n)>> : n \in Pads}
    [] kk = "notimpl" -> {<<kk, 1, 0, "", "not_implemented_here">>}
    [] kk = "raise" -> {<<kk, e, f, Fn[f], Explain(n)>> : e \in {"runtime", "logic", "own"}, f \in 1..2, n \in {0, 40, 500}}
    \* several threads, each with an assertion of its own that fails: all texts have their own thread's explanation
    [] kk = "threads" -> {<<kk, 4, 0, "", "thread">>}
    [] kk \in {"notify", "warn", "error"} -> {<<kk, 1, 0, "", Explain(n)>> : n \in Pads}
    [] kk \in {"once", "nonce", "both"} -> {<<kk, s, 0, "", "because 42">> : s \in Sites}
    [] kk \in {"deprecated", "ndeprecated"} -> {<<kk, s, 0, "", "old_function">> : s \in Sites}
Next == \E kk \in Kinds : \E op \in OpsOf(kk) : Do(op)
Spec == Init /\ [][Next]_vars
Obs == [n |-> Cardinality(said)]
-----------------------------------------------------------------------------
StepOK(op) ==
  /\ op[1] \in Always /\ op[2] # 7 => (out'.s = "throw") = (op[3] = 0) /\ out'.v[1] = 1
  /\ op[1] \in DebugOnly /\ ~Debug => out'.s = "none" /\ out'.v[1] = 0
  /\ op[1] \in {"once", "deprecated"} => out'.v[1] = Bool(<<op[1], op[2]>> \notin said)
  /\ op[1] # "new" /\ op[1] # "end" => said \subseteq said'
=============================================================================
